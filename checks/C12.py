"""C12: constants and test inputs reach the program bit for bit, whatever their magnitude, the number type and the encoding of the files."""
import subprocess
import sys

import numpy as np

import acx
from acx import Bad, compile_c, count, gen_files, make_generator, node, onnx_model, product, run_c, run_exe, scratch, union
from models import infer

ENC = {"hex": {"to_hex": True}, "dec": {"to_hex": False}, "bin": {"bin_dataset": True}, "bindec": {"bin_dataset": True, "to_hex": False}}


def grid(dtype):
    """Both signs x every binary exponent (subnormals included) x mantissas with one bit, no bit, all bits and alternating bits."""
    if dtype == "float":
        man = np.array([0, 1, 2, 0x10, 0x100, 0x2AAAAA, 0x3FFFF0, 0x400000, 0x555555, 0x7FFFFE, 0x7FFFFF], np.uint32)
        v = ((np.arange(0, 255, dtype=np.uint32)[:, None] << 23) | man[None, :]).reshape(-1).view(np.float32)
    else:
        man = np.array([0, 1, 0x10, 0x1000, 0x5555555555555, 0xFFFFFFFFFFFFF, 0x8000000000000, 0x00000F0000000], np.uint64)
        v = ((np.arange(0, 2047, 2, dtype=np.uint64)[:, None] << np.uint64(52)) | man[None, :]).reshape(-1).view(np.float64)
    dec = np.array([0.1, 0.2, 0.3, 1e-5, 1e5, 1e16, 1e17, 123456789.0, 16777217.0, 1 / 3, 2 / 3, 1e-45, 3.4e38, 1e22, 9007199254740993.0]).astype(v.dtype)
    v = np.concatenate([v, dec, np.arange(-64, 64) / v.dtype.type(10)])
    return np.concatenate([v, -v]).astype(v.dtype)


def bits(a):
    a = np.ascontiguousarray(a)
    return a.view({4: np.uint32, 8: np.uint64}[a.dtype.itemsize])


def exact(got, want, zero_sign=True):
    """First difference in the bits, or None."""
    got, want = got.ravel(), want.ravel()
    if got.shape != want.shape:
        return f"{got.size} values instead of {want.size}"
    ne = bits(got) != bits(want) if zero_sign else got != want
    if not ne.any():
        return None
    i = int(np.argmax(ne))
    return f"{int(ne.sum())}/{want.size} values differ, first {i}: got {got[i]!r} expected {want[i]!r}"


def sources(d, gen):
    """The C file (or linked object) holding the parameters."""
    if not gen.bin_dataset:
        return ("inference.c", "global_vars.c", "parameters.c"), ()
    r = subprocess.run(["make", "-s", "parameters.o"], cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise Bad("compile", f"make parameters.o: {r.stderr[-200:]}")
    return ("inference.c", "global_vars.c"), (str(d / "parameters.o"),)


def execute(model, X, enc, ctype, osize, **kw):
    with scratch() as d:
        gen = make_generator(model, X, **ENC[enc], **kw)
        gen_files(gen, d)
        src, obj = sources(d, gen)
        flags = ("-O1", "-no-pie") if obj else ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
        exe = compile_c(d, ctype, sources=src, flags=flags, extra=obj)
        out = run_c(exe, d, X, osize, ctype)
        py = np.concatenate([np.asarray([gen.c2data(w) for w in line.split()]) for line in infer_lines(gen, d)])
        return out, py


def infer_lines(gen, d):
    try:
        gen.compute_inference(str(d))
    except Exception as e:  # noqa: BLE001
        raise Bad("python", f"{type(e).__name__}: {e}") from e
    return (d / "output_python.txt").read_text().splitlines()


def const_case(net, enc, dtype, algo=None, opt=False):
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    v = grid(dtype)
    if net != "mul":
        v = v[np.isfinite(v * 4)]
    zs, I, kw = False, {}, {}
    if net == "mul":                         # element-wise constant
        n = v.size
        I["k"] = v.reshape(1, 1, 1, n)
        m = onnx_model([node("Mul", ["X", "k"], ["Y"])], [("X", (1, 1, 1, n), t)], [("Y", (1, 1, 1, n), t)], I)
        X, want, zs = np.ones((1, 1, 1, n), nt), v, True
    elif net == "rsub":                      # constant as the first operand
        n = v.size
        I["k"] = v.reshape(1, 1, 1, n)
        m = onnx_model([node("Sub", ["k", "X"], ["Y"])], [("X", (1, 1, 1, n), t)], [("Y", (1, 1, 1, n), t)], I)
        X, want = np.zeros((1, 1, 1, n), nt), v
    elif net in ("gemm", "gemmb", "matmul", "matmuladd"):
        k = 7
        v = v[:v.size // k * k]
        n = v.size // k
        I["w"], I["b"] = v.reshape(k, n), v[::-1][:n].copy()
        if net == "gemm":
            nodes = [node("Gemm", ["X", "w"], ["Y"])]
        elif net == "gemmb":
            nodes = [node("Gemm", ["X", "w", "b"], ["Y"])]
        else:
            nodes = [node("MatMul", ["X", "w"], ["u"]), node("Add", ["u", "b"], ["Y"])][:2 if net == "matmuladd" else 1]
            if net == "matmul":
                nodes = [node("MatMul", ["X", "w"], ["Y"])]
        m = infer(onnx_model(nodes, [("X", (1, k), t)], [("Y", (1, n), t)], {a: b for a, b in I.items() if any(a in z.input for z in nodes)}))
        if net in ("gemmb", "matmuladd"):
            X, want = np.zeros((1, 1, k), nt), I["b"]
        else:
            X, want = np.eye(k, dtype=nt).reshape(k, 1, k), v
    elif net in ("conv", "convb"):
        k = 6
        v = v[:v.size // k * k]
        n = v.size // k
        I["w"], I["b"] = v.reshape(n, k, 1, 1), v[::-1][:n].copy()
        if net == "conv":
            I["b"] = np.zeros(n, nt)
            X, want = np.eye(k, dtype=nt).reshape(k, k, 1, 1), v.reshape(n, k).T
        else:
            X, want = np.zeros((1, k, 1, 1), nt), I["b"]
        m = infer(onnx_model([node("Conv", ["X", "w", "b"], ["Y"], kernel_shape=[1, 1], strides=[1, 1])], [("X", (1, k, 1, 1), t)], [("Y", (1, n, 1, 1), t)], I))
        kw["versions"] = {"Conv2D": algo}
    elif net.startswith("bn"):
        n = v.size
        I = {"s": np.ones(n, nt), "b": np.zeros(n, nt), "m": np.zeros(n, nt), "v": np.ones(n, nt)}
        I[net[2]] = v
        want, X = v, np.full((1, n, 1, 1), 1 if net == "bns" else 0, nt)
        if net == "bnm":
            want = -v
        m = infer(onnx_model([node("BatchNormalization", ["X", "s", "b", "m", "v"], ["Y"], epsilon=0.0)], [("X", (1, n, 1, 1), t)], [("Y", (1, n, 1, 1), t)], I))
    elif net == "pad":
        fails = []
        for p in v[::97 if dtype == "float" else 211]:
            I = {"p": np.array([0, 0, 0, 0, 0, 0, 0, 1], np.int64), "pv": np.array(p, nt)}
            m = infer(onnx_model([node("Pad", ["X", "p", "pv"], ["Y"], mode="constant")], [("X", (1, 1, 1, 1), t)], [("Y", (1, 1, 1, 2), t)], I))
            out, py = execute(m, np.ones((1, 1, 1, 1), nt), enc, dtype, 2)
            for who, o in (("c", out), ("py", py.astype(nt))):
                e = exact(np.asarray(o).ravel()[1:], np.array([p], nt), False)
                if e:
                    fails.append((who, f"pad value {p!r}: {e}"))
        count("nontrivial")
        return fails[:4]
    elif net == "clip":
        fails = []
        for lo, hi in zip(np.sort(v)[::163], np.sort(v)[81::163]):
            I = {"lo": np.array(lo, nt), "hi": np.array(hi, nt)}
            m = infer(onnx_model([node("Clip", ["X", "lo", "hi"], ["Y"])], [("X", (1, 2), t)], [("Y", (1, 2), t)], I))
            big = np.finfo(nt).max
            out, py = execute(m, np.array([[[-big, big]]], nt), enc, dtype, 2)
            for who, o in (("c", out), ("py", py.astype(nt))):
                e = exact(np.asarray(o), np.array([lo, hi], nt), False)
                if e:
                    fails.append((who, f"clip to [{lo!r}, {hi!r}]: {e}"))
        count("nontrivial")
        return fails[:4]
    want = np.asarray(want, nt)
    count("nontrivial")
    count("constants", want.size)
    fails = []
    out, py = execute(m, X, enc, dtype, want.size // len(X), **({"optimization": True} if opt else {}), **kw)
    e = exact(out, want, zs)
    if e:
        fails.append(("c", e))
    e = exact(py.astype(nt), want, zs)
    if e:
        fails.append(("py", e))
    return fails


def data_case(enc, dtype, layout, dsdtype, n=3, name="inference"):
    """The test inputs, as the program sees them."""
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    v = grid(dtype)
    if dsdtype == "int":
        v = np.trunc(v[np.abs(v) < 2 ** 23])
    elif dsdtype == "f4":
        v = grid("float")
    v = v[:v.size // 8 * 8]
    C, H, W = 2, v.size // 8, 4
    m = onnx_model([node("Relu", ["X"], ["Y"])], [("X", (1, C, H, W), t)], [("Y", (1, C, H, W), t)])
    X = np.stack([np.roll(v, i) for i in range(n)]).astype({"same": nt, "f8": np.float64, "f4": np.float32, "int": np.int32}[dsdtype])
    shape = {"flat": (n, v.size), "one": (n, 1, v.size), "nchw": (n, C, H, W), "n1chw": (n, 1, C, H, W), "F": (n, C, H, W), "view": (n, C, H, W)}[layout]
    X = X.reshape(shape)
    if layout == "F":
        X = np.asfortranarray(X)
    if layout == "view":
        X = np.repeat(X, 2, axis=0)[::2]
    want = np.ascontiguousarray(X).reshape(n, -1).astype(nt)
    count("nontrivial")
    count("inputs", want.size)
    with scratch() as d:
        gen = make_generator(m, X, function_name=name, **ENC[enc])
        gen_files(gen, d)
        if gen.bin_dataset:
            r = subprocess.run(["make", "-s", "test_dataset.o"], cwd=d, capture_output=True, text=True)
            if r.returncode:
                return [("compile", r.stderr[-200:])]
            exe = compile_c(d, dtype, sources=(), flags=("-O0", "-no-pie"), driver=acx.LIB / "dump_dataset.c", extra=(str(d / "test_dataset.o"),))
        else:
            exe = compile_c(d, dtype, sources=("test_dataset.c",), flags=("-O0",), driver=acx.LIB / "dump_dataset.c")
        run_exe([exe, d / "ds.bin"])
        raw = (d / "ds.bin").read_bytes()
        dims = np.frombuffer(raw[:12], np.int32)
        if list(dims) != [n, v.size, v.size]:
            return [("c", f"nb_samples, nn_input_size, nn_output_size are {list(dims)}, expected {[n, v.size, v.size]}")]
        e = exact(np.frombuffer(raw[12:], nt), want)
        fails = [("c", e)] if e else []
        py = [np.asarray([gen.c2data(w) for w in line.split()], nt) for line in infer_lines(gen, d)]
        e = exact(np.stack(py), np.where(want > 0, want, 0).astype(nt), False)
        return fails + ([("py", e)] if e else [])


def case(kind, **kw):
    return const_case(**kw) if kind == "const" else data_case(**kw)


def main():
    acx.import_target()
    c = acx.Check("C12", rule="one case = one generated network (kind of constant x encoding of the files x number type) whose outputs are its constants, or one generated test set; the "
                  "values are both signs of every binary exponent with 11 (8) mantissas, subnormals, zeros and decimal fractions")
    q = union(
        product(kind=("const",), net=("mul", "rsub", "gemm", "gemmb", "matmul", "matmuladd", "bns", "bnb", "bnm"), enc=tuple(ENC), dtype=("float", "double"), opt=(False, True)),
        product(kind=("const",), net=("conv", "convb"), algo=("6loops", "indirect_gemm_nn", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt"), enc=tuple(ENC), dtype=("float", "double")),
        product(kind=("const",), net=("pad", "clip"), enc=("hex", "dec"), dtype=("float", "double")),
        product(kind=("data",), enc=tuple(ENC), dtype=("float", "double"), layout=("flat", "one", "nchw", "n1chw", "F", "view"), dsdtype=("same", "f8", "f4", "int")),
        product(kind=("data",), enc=tuple(ENC), dtype=("float",), layout=("one",), dsdtype=("same",), n=(1, 2, 31, 32, 33), name=("inference", "net_7")),
    )
    c.run(q, case)
    c.assumptions = ["finite constants; signs of zeros are compared where the network's arithmetic keeps them"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
