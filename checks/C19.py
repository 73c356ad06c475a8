"""C19: a program for a fixed-point target computes the fixed-point network.

Every network of quantised products, additions and activations up to a depth, every combination of Q formats of parameters, input and output in a range, 8, 16 and 32 bits, on inputs at the limits of
the type: Python reference, compiled function and complete program against integer arithmetic on the definition. Every string up to a length over the alphabet of Q formats against its grammar."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

import acx
from acx import Bad, compile_c, count, gen_files, make_generator, mismatch, node, onnx_model, product, py_reference, run_c, scratch, union
from models import infer

DT = {"int8": ("signed char", "short"), "int16": ("short", "int"), "int32": ("int", "long int")}
TEMP = {"int8": "int32", "int16": "int32", "int32": "int64"}
CT = {"int8": "signed char", "int16": "short", "int32": "int"}
K = 3
NETS = ("mm", "mm relu", "mm add", "mm add relu", "mm relu add", "mm mm", "mm add mm add", "mm add relu mm", "add", "add relu", "relu", "addself", "relu mm", "lmm", "mmself", "mm clip", "mm sub", "mm mul", "mm fork", "mm leaky", "add add", "gemm", "mm add mm relu", "mm max", "lmm add")


def _wrap(a, dt):
    if FITS[1] > 2**40 and np.abs(a).max() >= 2**31:      # operands of 32 bits are added in 32 bits
        FITS[0] = False
    return a.astype(dt)


def wrap(a, dt):
    return _wrap(np.asarray(a).astype(np.int64), dt)


FITS = [True, 0]


def acc(a, w):
    """Sum of products; notes whether no partial sum leaves the temporary type (signed overflow is undefined in C)."""
    p = a.astype(np.int64)[:, None] * w.astype(np.int64)
    if np.abs(p).sum(0).max() > FITS[1]:
        FITS[0] = False
    return p.sum(0)


def shifted(v, s):
    if s < 0 and np.abs(v).max() > FITS[1] >> -s:
        FITS[0] = False
    return v >> s if s >= 0 else v * 2 ** -s


def weights(k, shape, dt, m, mode):
    """Float parameters: small, or such that the quantised values reach the limits of the type."""
    n = int(np.prod(shape))
    i = np.iinfo(dt)
    if mode == "small":
        v = ((np.arange(n) * (k + 2)) % 7 - 3.0) * 2.0 ** -max(m - 2, 0)
    elif mode == "half":      # rounding: multiples of half a unit
        v = ((np.arange(n) * (2 * k + 3)) % 13 - 6) / 2 * 2.0 ** -m
    else:
        pool = [i.max, i.min, i.max - 1, 0, -1, i.min + 1, 1]
        v = np.array([pool[(j * 3 + k) % 7] for j in range(n)]) * 2.0 ** -m
    return v.reshape(shape).astype(np.float64 if dt == "int32" else np.float32)


def network(net, dt, fm, mode):
    """fm: fractional bits (input, parameters, output) of every product; additions are in the format they get. -> model, config, oracle."""
    i = np.iinfo(dt)
    bits = i.bits - 1
    q = lambda m: f"Q{bits - m}.{m}"
    ns, ini, conf, steps = [], {}, {"X": {"out": q(fm[0])}}, []
    x, cur = "X", fm[0]
    ops = net.split()
    sh = (1, 1, 1, K)
    T = np.float32
    for k, op in enumerate(ops):
        y, w = f"Y{k}", f"W{k}"
        if op in ("mm", "lmm", "mmself", "gemm"):
            mo = fm[2]
            mp = cur if op == "mmself" else fm[1]
            if op != "mmself":
                ini[w] = weights(k, (K, K), dt, mp, mode)
                conf[w] = {"out": q(mp)}
                wq = np.rint(ini[w] * 2.0 ** mp).astype(np.int64).astype(dt)
            ins = {"mm": [x, w], "lmm": [w, x], "mmself": [x, x], "gemm": [x, w]}[op]
            ns.append(node("MatMul" if op != "gemm" else "Gemm", ins, [y], name="n" + y))
            conf["n" + y] = {"in": q(cur), "params": q(mp), "out": q(mo)}
            s = cur + mp - mo
            steps.append((lambda a, wq=wq, s=s: wrap(shifted(acc(a, wq), s), dt)) if op in ("mm", "gemm") else
                         (lambda a, wq=wq, s=s: wrap(shifted(acc(a, wq.T), s), dt)) if op == "lmm" else None)
            cur = mo
        elif op in ("add", "sub", "mul", "max"):
            ini[w] = weights(k, (1, 1, K, 1) if "lmm" in ops else (1, 1, 1, K), dt, cur, mode)
            conf[w] = {"out": q(cur)}
            wq = np.rint(ini[w] * 2.0 ** cur).astype(np.int64).astype(dt).reshape(-1)
            ns.append(node({"add": "Add", "sub": "Sub", "mul": "Mul", "max": "Max"}[op], [x, w], [y], name="n" + y))
            conf["n" + y] = {"in": q(cur), "params": q(cur), "out": q(cur)}
            f = {"add": np.add, "sub": np.subtract, "max": np.maximum}.get(op)
            steps.append((lambda a, wq=wq, f=f: wrap(f(a.astype(np.int64), wq.astype(np.int64)), dt)) if f else None)
        elif op == "addself":
            ns.append(node("Add", [x, x], [y], name="n" + y))
            conf["n" + y] = {"in": q(cur), "params": q(cur), "out": q(cur)}
            steps.append(lambda a: wrap(a.astype(np.int64) * 2, dt))
        elif op == "fork":
            ns += [node("Relu", [x], ["p"], name="np"), node("Add", ["p", x], [y], name="n" + y)]
            conf["n" + y] = {"in": q(cur), "params": q(cur), "out": q(cur)}
            steps.append(lambda a: wrap(a.astype(np.int64) + np.maximum(a, 0), dt))
        elif op == "relu":
            ns.append(node("Relu", [x], [y], name="n" + y))
            steps.append(lambda a: np.maximum(a, 0))
        elif op == "clip":
            ini["lo"], ini["hi"] = np.array(-3, T), np.array(5, T)
            ns.append(node("Clip", [x, "lo", "hi"], [y], name="n" + y))
            steps.append(lambda a: np.clip(a, -3, 5))
        elif op == "leaky":
            ns.append(node("LeakyRelu", [x], [y], alpha=0.5, name="n" + y))
            steps.append(None)
        x = y
    t = 11 if dt == "int32" else 1
    ini = {k: v.astype(np.float64 if t == 11 else np.float32) for k, v in ini.items()}
    shape = (1, 1, 1, K) if "lmm" not in ops else (1, 1, K, 1)
    m = infer(onnx_model(ns, [("X", shape, t)], [(x, (), t)], ini))
    return m, conf, steps, shape


def inputs(dt, mode):
    i = np.iinfo(dt)
    vals = [i.max, i.min, 0, -1, 1, i.max // 3, i.min // 5]
    if mode == "small":
        vals = [-9, 7, 0, -1, 1, 5, -4]
    return np.array(list(itertools.product(vals, repeat=K)), dt)[:: 1 if mode != "limits" else 1]


def case(kind, **kw):
    return {"net": net_case, "program": program, "grammar": grammar, "shift": shift}[kind](**kw)


def prepare(d, net, dt, fm, mode, **kw):
    m, conf, steps, shape = network(net, dt, fm, mode)
    X = inputs(dt, mode)
    if None in steps:
        return None
    want, keep = [], []
    for r, x in enumerate(X):
        a = x
        FITS[:] = [True, np.iinfo(TEMP[dt]).max]
        for s in steps:
            a = s(a)
        if FITS[0]:
            keep.append(r)
            want.append(np.asarray(a).reshape(-1))
    if not keep:
        return None
    X = X[keep]
    ct, tt = CT[dt], DT[dt][1] if TEMP[dt] != "int32" else "int"
    (d / "AVX512VNNI.json").write_text(json.dumps({"name": "T", "cflags": "-O1", "quantization": {"dtype": ct, "temp_dtype": tt, "pydtype": dt, "temp_pydtype": TEMP[dt], "layers": conf}}))
    here = os.getcwd()
    os.chdir(d)                              # the configuration of a target is read from the working directory
    try:
        gen = make_generator(m, X.reshape(len(X), *shape[1:]), target="AVX512VNNI", **kw)
    finally:
        os.chdir(here)
    return gen, X, np.array(want), ct


def net_case(net, dt, fm, mode, opt=False):
    acx.CTYPES["signed char"] = "i1"
    count("programs")
    with scratch() as d:
        try:
            p = prepare(d, net, dt, fm, mode, optimization=opt)
            if p is None:
                count("no oracle")
                return []
            gen, X, want, ct = p
            (d / "g").mkdir()
            gen_files(gen, d / "g")
        except Bad as b:
            if b.stage in ("import", "codegen"):
                if all(o in ("mm", "add", "relu", "lmm", "addself", "fork", "clip") for o in net.split()):
                    return [("refused", f"{net} {b.msg}")]
                count("refused")
                return []
            raise
        fails = []
        try:
            P, _ = py_reference(gen, d / "g")
            count("python_executions", len(X))
            e = mismatch(P, want.astype(np.float64), 0, 0, "python")
            if e:
                fails.append(("py", e))
        except Bad as b:
            fails.append((b.stage, b.msg))
        try:
            exe = compile_c(d / "g", ct)
            C = run_c(exe, d / "g", X, want.shape[1], ct)
            e = mismatch(C, want.astype(np.float64), 0, 0, "C")
            if e:
                fails.append(("c", e))
        except Bad as b:
            fails.append((b.stage, b.msg))
    return fails


def program(net, dt, bin_dataset, ext=False):
    acx.CTYPES["signed char"] = "i1"
    with scratch() as d:
        try:
            gen, X, want, ct = prepare(d, net, dt, (3, 2, 4), "small", bin_dataset=bin_dataset)
            (d / "g").mkdir()
            gen_files(gen, d / "g")
        except Bad as b:
            return [(b.stage, b.msg)]
        r = subprocess.run(["make", "-s", "all"], cwd=d / "g", capture_output=True, text=True)
        if r.returncode:
            return [("build", r.stderr[-200:])]
        r = subprocess.run(["./inference", "out.txt"], cwd=d / "g", capture_output=True, text=True)
        if r.returncode:
            return [("run", f"program ended with {r.returncode}")]
        count("programs")
        C = np.array([[float(v) for v in l.split()] for l in (d / "g/out.txt").read_text().splitlines() if l.strip()])
        e = mismatch(C, want.astype(np.float64), 0, 0, "program")
        return [("program", e)] if e else []


def grammar(head, length):
    """parse_q_format accepts Q<int>.<nat> only, with their values."""
    from acetone_nnet.quantize.qform import parse_q_format
    fails = []

    def ref(s):
        if not s.startswith("Q") or s.count(".") != 1:
            return None
        a, b = s[1:].split(".")
        neg = a.startswith("-")
        D = "0123456789"
        if not (a[neg:] and b and all(c in D for c in a[neg:] + b)):
            return None
        return (-1 if neg else 1) * int(a[neg:]), int(b)
    for t in itertools.product("Q-.019q+ \n\u0663", repeat=length):
        s = head + "".join(t)
        count("strings")
        try:
            g = parse_q_format(s)
        except Exception as e:
            g = type(e).__name__
        if g != ref(s):
            fails.append(("grammar", f"parse_q_format({s!r}) = {g}, expected {ref(s)}"))
    return fails


def shift(dt):
    """QuantizeShiftActivation on every formats in a range, Python and C."""
    from acetone_nnet.generator.activation_functions import Linear, ReLu
    from acetone_nnet.quantize.activation import QuantizeShiftActivation
    fails, exprs, wants = [], [], []
    bits = np.iinfo(dt).bits
    z = np.array([0, 1, -1, 2, -2, 3, -3, 127, -128, 255, 32767, -32768, 65535, 65536, -65537, 2**31 - 1, -2**31, 123456789, -987654321], np.int64)
    zs = {n: np.array([v for v in z if -2**31 <= v << n < 2**31]) for n in range(17)}      # left shifts that fit the type
    for a, b, o in itertools.product(range(0, 9, 2), range(0, 9, 2), range(0, 17, 2)):
        for act in (None, ReLu()):
            n = max(0, o - a - b)
            f = QuantizeShiftActivation(CT[dt], dt, f"Q0.{b}", f"Q0.{a}", f"Q0.{o}", act)
            w = (zs[n] << n if n else zs[n] >> (a + b - o)).astype(dt)
            if act:
                w = np.maximum(w, 0)
            g = f.compute(zs[n])
            count("values", len(w))
            if not np.array_equal(g, w):
                fails.append(("py", f"{dt} in {a} params {b} out {o}: {g.tolist()} expected {w.tolist()}"))
            exprs.append(f"for(i=0;i<{len(w)};i++)printf(\"%d \",(int)({f.write_activation_str(f'z{n}[i]')}));")
            wants += w.tolist()
    with scratch() as d:
        (d / "t.c").write_text("#include <stdio.h>\n#include <stdint.h>\n#include <math.h>\nint main(void){int i;" + "".join(f"static int z{n}[]={{" + ",".join(f"(int){v}LL" for v in a) + "};" for n, a in zs.items()) + "\n".join(exprs) + "return 0;}")
        r = subprocess.run(["gcc", "-w", "-O1", "-o", d / "t", d / "t.c", "-lm"], capture_output=True, text=True)
        if r.returncode:
            return fails + [("compile", r.stderr[-200:])]
        out = list(map(int, subprocess.run([d / "t"], capture_output=True, text=True).stdout.split()))
        bad = sum(g != w for g, w in zip(out, wants)) + abs(len(out) - len(wants))
        if bad:
            fails.append(("c", f"{dt}: {bad} of {len(wants)} values of the generated shifts differ"))
    return fails


def main():
    acx.import_target()
    c = acx.Check("C19", rule="one case per network, type, Q formats and parameter values, each on every combination of limit values of its inputs; one case per prefix of the strings of the Q format grammar")
    R = (0, 2, 5) if not c.thorough else (0, 1, 2, 3, 5, 7)
    q = union(
        product("", kind=("net",), net=NETS, dt=tuple(CT), fm=((3, 2, 4), (7, 7, 7)), mode=("small", "limits", "half")),
        product("", kind=("net",), net=("mm", "mm add relu mm", "lmm"), dt=tuple(CT), fm=tuple(itertools.product(R, R, R)), mode=("small", "limits")),
        product("", kind=("net",), net=NETS, dt=("int16",), fm=((3, 2, 4),), mode=("small",), opt=(True,)),
        product("", kind=("program",), net=("mm", "mm add relu mm", "add"), dt=tuple(CT), bin_dataset=(False, True)),
        product("", kind=("grammar",), head=("", "Q", "Q-", "Q1", "Q0.", "Q-1.", "q1.", "Q1.2"), length=(0, 1, 2, 3)),
        product("", kind=("shift",), dt=tuple(CT)))
    c.run(q, case)
    c.assumptions = ["products are accumulated without overflow of the temporary type"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
