"""C14: the generated project builds with its own Makefile, and its main program and batch loop run every input once and report result k in row k.

Schedules: main.c and train_hook.c are compiled with OpenMP enabled against lib/sched.c, which stands in for the OpenMP runtime: a region is executed by coroutines, control may
change hands before and after every call of inference(), and every sequence of choices is explored (with MAX_BATCH_SIZE scaled down so that several batches occur); the full-size
batches run under every team size in fixed orders."""
import re
import subprocess
import sys

import numpy as np

import acx
from acx import Bad, count, gen_files, make_generator, node, onnx_model, product, run_exe, scratch, union
from C11 import producer
from C12 import grid
from nets import NETS
from models import infer


def network(net, dtype):
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    I = {}
    if net in NETS:
        return *NETS[net](), np.float32
    if net == "id":                         # moves values only: any value comes out bit for bit
        nodes, shp = [node("Tile", ["X", "r"], ["y"])], (1, 1, 1, 3)
        I["r"] = np.array([1, 1, 2, 1])
    elif net == "one":
        nodes, shp = [node("Relu", ["X"], ["y"])], (1, 1, 1, 1)
    else:
        nodes, shp = producer(net, I)
    I = {k: v.astype(nt) if v.dtype == np.float32 and k not in ("sc", "roi") else v for k, v in I.items()}
    return infer(onnx_model(nodes, [("X", shp, t)], [("y", (), t)], I, opset=13)), shp, nt


def inputs(net, n, shp, nt):
    k = int(np.prod(shp))
    if net == "id":
        v = grid("float" if nt == np.float32 else "double")
        v = v[np.arange(n * k) * 37 % len(v)]
    elif net in NETS:
        v = np.sin(np.arange(n * k) * .7)
    else:
        v = (np.arange(n * k) * 5 + np.arange(n * k) // k * 3) % 23 - 11.0
    return v.astype(nt).reshape(n, *shp[1:])


def want_of(net, m, X, shp):
    """The networks move values or compute integers: the single precision result is exact."""
    if net == "id":
        return np.tile(X.reshape(len(X), -1), 2)
    m1, _, _ = network(net, "float")
    return acx.ort_run(m1, X.astype(np.float32), shp).reshape(len(X), -1).astype(X.dtype)


def text(v, enc):
    return " ".join((float.hex(float(x)) if enc == "hex" else repr(float(x))) for x in v)


def rows_of(s, n, osize, dtype, exact, what):
    lines = s.splitlines()
    if len(lines) != n:
        raise Bad(what, f"{len(lines)} lines for {n} inputs")
    out = np.zeros((n, osize), dtype)
    for i, l in enumerate(lines):
        w = l.split()
        if len(w) != osize:
            raise Bad(what, f"{len(w)} values in line {i} instead of {osize}")
        out[i] = [dtype(float.fromhex(x)) if "x" in x else dtype(x) for x in w]
    return out


def compare(got, want, exact, what):
    if exact == "near":
        bad = ~np.isclose(got, want, rtol=1e-4, atol=2e-5)
    elif exact:
        bad = (got != want) & ~(np.isnan(got) & np.isnan(want))
    else:
        bad = ~np.isclose(got, want, rtol=1e-5, atol=0)
    if bad.any():
        i, k = np.argwhere(bad)[0]
        return [(what, f"row {i} value {k}: {got[i, k]!r}, network: {want[i, k]!r}")]
    return []


def prog(net="conv", n=3, dtype="float", enc="hex", ext=False, verbose=False, binary=False, omp=False, name="inference", target="EXEC", lib=False, opt=False, algo=None):
    m, shp, nt = network(net, dtype)
    X = inputs(net, n, shp, nt)
    want = want_of(net, m, X, shp)
    kw = dict(to_hex=enc == "hex", verbose=verbose, bin_dataset=binary, optimization=opt)
    if algo:
        kw["versions"] = {"Conv2D": algo}
    if omp:
        kw["makefile_properties"] = {"compiler_flags": ["-w", "-O1", "-fopenmp"], "linker_flags": ["-lm", "-fopenmp"]}
    fails = []
    with scratch() as d:
        if ext:
            from acetone_nnet import CodeGenerator
            try:
                g = CodeGenerator(m, nb_tests=n, external_input=True, function_name=name, **kw)
            except Exception as e:
                raise Bad("import", f"{type(e).__name__}: {e}") from e
        else:
            g = make_generator(m, X, function_name=name, **kw)
        gen_files(g, d)
        r = subprocess.run(["make", *(["all"] if lib else [name])], cwd=d, capture_output=True, text=True, timeout=300)
        if r.returncode:
            e = [l for l in r.stderr.splitlines() if "rror" in l or "undefined" in l]
            raise Bad("make", (e or r.stderr.splitlines() or ["?"])[0][-200:])
        cmd = [d / name, d / "out.txt"]
        if ext:
            (d / "in.txt").write_text("\n".join(text(x.reshape(-1), enc) for x in X))
            cmd.append(d / "in.txt")
        so = run_exe(cmd, timeout=120).stdout.decode()
        count("programs")
        exact = "near" if net in NETS else enc == "hex"
        got = rows_of((d / "out.txt").read_text(), n, want.shape[1], nt, exact, "rows")
        fails += compare(got, want, exact, "result")
        if verbose:
            body = so.split("inference output: \n")[-1]
            fails += compare(rows_of(body, n, want.shape[1], nt, exact, "printed rows"), want, exact, "printed result")
        elif so:
            fails.append(("stdout", f"prints {so[:60]!r} without verbose"))
        if lib:
            fails += library(d / f"{name}.so", net, X, want, nt)
        # Python's own pass on the same inputs, reported in the same form
        g.compute_inference(str(d), *([X] if ext else []))
        py = rows_of((d / "output_python.txt").read_text(), n, want.shape[1], nt, exact, "python rows")
        fails += compare(py, want, exact, "python result")
    return fails


LIBRUN = """
import ctypes, sys, numpy as np
so, xf, n, os_, dt, out, w, ws, what = sys.argv[1:]
L = ctypes.CDLL(so); X = np.fromfile(xf, dt); Y = np.full(int(n) * int(os_) + 8, 77, dt)
if what == "batch":
    L.batch_loop(Y.ctypes.data_as(ctypes.c_void_p), X.ctypes.data_as(ctypes.c_void_p), int(n))
    assert (Y[-8:] == 77).all(), "overrun"
    Y[:-8].tofile(out)
elif what == "copy":
    P = [np.fromfile(f, dt) for f in sorted(__import__("glob").glob(w + ".*"))]
    L.copy_weights(*[p.ctypes.data_as(ctypes.c_void_p) for p in P])
    L.batch_loop(Y.ctypes.data_as(ctypes.c_void_p), X.ctypes.data_as(ctypes.c_void_p), int(n))
    Y[:-8].tofile(out)
else:
    n = L.save_weights(w.encode())
    print(n)
"""


def library(so, net, X, want, nt):
    d = so.parent
    np.ascontiguousarray(X).tofile(d / "x.bin")
    (d / "librun.py").write_text(LIBRUN)
    dt = np.dtype(nt).name

    def call(what):
        return subprocess.run([sys.executable, d / "librun.py", so, d / "x.bin", str(len(X)), str(want.shape[1]), dt, d / "y.bin", d / "w.bin", "x", what],
                              capture_output=True, text=True, timeout=100)
    r = call("batch")
    if r.returncode:
        return [("library", f"batch_loop: exit {r.returncode} {r.stderr.strip().splitlines()[-1:] }")]
    fails = compare(np.fromfile(d / "y.bin", nt).reshape(want.shape), want, "near" if net in NETS else True, "batch_loop")
    r = call("save")
    if r.returncode:
        return fails + [("library", f"save_weights: exit {r.returncode} {r.stderr.strip().splitlines()[-1:]}")]
    data = (d / "w.bin").read_bytes()
    if int(r.stdout) != len(data):
        fails.append(("library", f"save_weights reports {r.stdout.strip()} bytes of {len(data)}"))
    with scratch() as d2:                     # the same network, its parameters as C arrays
        gen_files(make_generator(network(net, dt.replace("float64", "double").replace("float32", "float"))[0], X), d2)
        subprocess.run(["gcc", "-w", "-c", "parameters.c"], cwd=d2, check=True, capture_output=True)
        ref = parameters(d2)
    arrays = [v for k, v in ref.items() if k.startswith(("weights_", "biases_")) and len(v)]

    def cover(pos, left):                     # the file is these arrays one after the other, each once, in any order
        if not left:
            return pos == len(data)
        return any(data.startswith(v, pos) and cover(pos + len(v), left[:i] + left[i + 1:]) for i, v in enumerate(left) if v not in left[:i])
    if not cover(0, arrays):
        fails.append(("library", f"save_weights does not write the {len(arrays)} parameter arrays of the program, once each"))
    return fails


def other(m):
    """The same network with other parameters."""
    from onnx import numpy_helper
    m2 = type(m)()
    m2.CopyFrom(m)
    for i, t in enumerate(m2.graph.initializer):
        a = numpy_helper.to_array(t)
        if a.dtype.kind == "f":
            t.CopyFrom(numpy_helper.from_array((np.arange(a.size) * 3 % 7 - 2.0 - a.reshape(-1)).reshape(a.shape).astype(a.dtype), t.name))
    return m2


def copy(net="gemm", dtype="float", n=2, binary=False, new=False):
    """copy_weights() replaces the parameters of the loaded program: with all of them zero, so is the result; with those of another network, so is the result."""
    m, shp, nt = network(net, dtype)
    X = inputs(net, n, shp, nt)
    osize = want_of(net, m, X, shp).shape[1]
    with scratch() as d:
        g = make_generator(m, X, bin_dataset=binary)
        gen_files(g, d)
        r = subprocess.run(["make", "all"], cwd=d, capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise Bad("make", r.stderr[-200:])
        X.tofile(d / "x.bin")
        sig = re.search(r"copy_weights\s*\(([^)]*)\)", (d / "train_hook.c").read_text())
        names = [k for k in (sig[1] if sig else "").split(",") if k.strip() not in ("", "void")]
        want = np.zeros((n, osize), nt)
        if new:
            want = acx.ort_run(other(network(net, "float")[0]), X.astype(np.float32), shp).reshape(n, -1).astype(nt)
            with scratch() as d2:
                gen_files(make_generator(other(m), X), d2)
                subprocess.run(["gcc", "-w", "-c", "parameters.c"], cwd=d2, check=True, capture_output=True)
                ref = parameters(d2)
            names = [re.sub(r"^model_", "", re.findall(r"\w+", k)[-1]) for k in names]
            if not set(names) <= set(ref):
                count("parameters_not_named")
                return []
        for i, k in enumerate(names):
            (np.frombuffer(ref[k], nt) if new else np.zeros(4096, nt)).tofile(d / f"w.{i:03d}")
        (d / "librun.py").write_text(LIBRUN)
        r = subprocess.run([sys.executable, d / "librun.py", d / "inference.so", d / "x.bin", str(n), str(osize), np.dtype(nt).name, d / "y.bin", d / "w", "x", "copy"],
                           capture_output=True, text=True, timeout=100)
        if r.returncode:
            return [("copy_weights", f"copying {len(names)} parameter arrays ends with exit {r.returncode}")]
        return compare(np.fromfile(d / "y.bin", nt).reshape(n, osize), want, True, "copy_weights")


def parameters(d):
    """Bytes of every parameter array, read from the object file."""
    nm = subprocess.run(["nm", "-S", d / "parameters.o"], capture_output=True, text=True).stdout
    out = {}
    subprocess.run(["objcopy", "-O", "binary", "-j", ".rodata", d / "parameters.o", d / "ro.bin"], capture_output=True)
    raw = (d / "ro.bin").read_bytes() if (d / "ro.bin").exists() else b""
    for l in nm.splitlines():
        w = l.split()
        if len(w) == 4:
            a, s = int(w[0], 16), int(w[1], 16)
            out[w[3]] = raw[a:a + s]
    return out


def sched(net="gemm", n=3, dtype="float", batch=None, teams=(1, 2), orders=(0,), loop="main", limit=30000):
    m, shp, nt = network(net, dtype)
    X = inputs(net, n, shp, nt)
    want = want_of(net, m, X, shp)
    fails = []
    with scratch() as d:
        g = make_generator(m, X)
        gen_files(g, d)
        if batch:
            h = (d / "inference.h").read_text()
            h2 = re.sub(r"(#define\s+MAX_BATCH_SIZE\s+)\d+", rf"\g<1>{batch}", h)
            if h2 == h and str(batch) not in re.findall(r"#define\s+MAX_BATCH_SIZE\s+(\d+)", h):
                count("batch_size_not_scaled")
            (d / "inference.h").write_text(h2)
        srcs = ["inference.c", "global_vars.c", "parameters.c"] + (["main.c", "test_dataset.c"] if loop == "main" else ["train_hook.c"])
        for s in srcs:
            fl = ["-Dmain=prog_main"] if s == "main.c" else []
            r = subprocess.run(["gcc", "-w", "-O1", "-fopenmp", *fl, "-c", s, "-o", s[:-2] + ".o"], cwd=d, capture_output=True, text=True)
            if r.returncode:
                raise Bad("compile", r.stderr[:200])
        r = subprocess.run(["gcc", "-w", "-O1", f"-I{d}", f"-DT={g.data_type}", *(["-DBATCH"] if loop == "batch" else []), "-c", acx.LIB / "sched.c", "-o", "sched.o"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            raise Bad("compile", r.stderr[:200])
        r = subprocess.run(["gcc", "-Wl,--wrap=inference", "-o", "sc", "sched.o", *[s[:-2] + ".o" for s in srcs], "-lm"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            if re.search(r"undefined reference to `(GOMP|omp)_", r.stderr):    # a construct the scheduler does not stand in for: the programs of kind prog are what is left
                count("not_schedulable")
                return []
            raise Bad("link", r.stderr[-200:])
        X.astype(nt).tofile(d / "x.bin")
        for team in teams:
            for order in orders:
                r = run_exe([d / "sc", d / "o", n, team, limit, order, *([d / "x.bin"] if loop == "batch" else [])], timeout=200)
                if r.stdout.startswith(b"bad"):
                    fails.append(("schedule", f"team {team} order {order}: {r.stdout.decode().strip()}"))
                    continue
                v = {a: int(b) for a, b in (l.split() for l in r.stdout.decode().splitlines())}
                count("schedules", v["runs"]); count("states", v["states"]); count("transitions", v["calls"]); count("traces", v["runs"])
                count("incomplete", 1 - v["complete"])
                who = f"{loop} n={n} batch={batch} team={team} order={order}"
                if v["bad_ctx"]:
                    fails.append(("schedule", f"{who}: two calls run in one context"))
                if v["differs"]:
                    fails.append(("schedule", f"{who}: {v['differs']} of {v['runs']} schedules give another result"))
                if v["calls"] != n * v["runs"]:
                    fails.append(("schedule", f"{who}: {v['calls']} calls in {v['runs']} runs of {n} inputs"))
                if loop == "main":
                    got = rows_of((d / "o").read_text(), n, want.shape[1], nt, True, "rows")
                else:
                    got = np.fromfile(d / "o", nt).reshape(want.shape)
                fails += [(a, f"{who}: {t}") for a, t in compare(got, want, True, "result")]
    return fails


def whole(op, n, ext=False, verbose=False, binary=False, lib=False):
    """A network of integers (long int): inputs and results beyond 32 bits, in and out of the program as they are."""
    import jsonnet
    net = jsonnet.build("dense" if op == "dense" else "ops", "channels_last", "int", op, None, (2, 3, 5))
    k = int(np.prod(net.shape[0]))
    X = ((np.arange(n * k) * 5 + np.arange(n * k) // k * 3) % 23 - 11) * np.array([1, 70000, 2 ** 31 + 7])[np.arange(n) % 3].repeat(k)
    X = X.reshape(n, *net.shape[0])
    last = lambda v: np.asarray(v).transpose(1, 2, 0).reshape(-1) if np.ndim(v) == 3 else np.asarray(v).reshape(-1)
    want = np.stack([last(net.eval(x.astype(np.float64))) for x in X])
    X = np.stack([last(x) for x in X])
    assert (np.abs(want) < 2 ** 53).all() and (want == np.rint(want)).all()
    with scratch() as d:
        net.dump(d / "net.json")
        kw = dict(verbose=verbose, bin_dataset=binary)
        if ext:
            from acetone_nnet import CodeGenerator
            g = CodeGenerator(str(d / "net.json"), nb_tests=n, external_input=True, **kw)
        else:
            g = make_generator(str(d / "net.json"), X.reshape(n, 1, -1), **kw)
        gen_files(g, d / "g")
        r = subprocess.run(["make", "all" if lib else "inference"], cwd=d / "g", capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise Bad("make", r.stderr[-200:])
        cmd = [d / "g/inference", d / "out.txt"]
        if ext:
            (d / "in.txt").write_text("\n".join(" ".join(map(str, x)) for x in X.tolist()))
            cmd.append(d / "in.txt")
        so = run_exe(cmd, timeout=120).stdout.decode()
        count("programs")
        g.compute_inference(str(d), *([X.reshape(n, 1, -1)] if ext else []))
        fails = []
        texts = {"result": (d / "out.txt").read_text(), "python result": (d / "output_python.txt").read_text()}
        if verbose:
            texts["printed result"] = so.split("inference output: \n")[-1]
        for what, t in texts.items():
            fails += compare(rows_of(t, n, want.shape[1], np.float64, True, what), want, True, what)
        if lib:
            X.astype(np.int64).tofile(d / "x.bin")
            (d / "librun.py").write_text(LIBRUN)
            r = subprocess.run([sys.executable, d / "librun.py", d / "g/inference.so", d / "x.bin", str(n), str(want.shape[1]), "int64", d / "y.bin", d / "w.bin", "x", "batch"], capture_output=True, text=True, timeout=100)
            if r.returncode:
                return fails + [("library", f"batch_loop: exit {r.returncode} {r.stderr.strip().splitlines()[-1:]}")]
            fails += compare(np.fromfile(d / "y.bin", np.int64).reshape(want.shape).astype(np.float64), want, True, "batch_loop")
    return fails


def case(kind, **kw):
    return {"whole": whole, "prog": prog, "sched": sched, "copy": copy}[kind](**kw)


def main():
    acx.import_target()
    c = acx.Check("C14", level="model_checking", rule="a state is a scheduler decision between two calls of inference() in a parallel region, a transition a call of inference(), a trace one complete run "
                  "of main() or batch_loop(); every sequence of decisions is explored where the order is 0")
    nets = ("conv", "gemm", "concat", "radd", "mm0", "id")
    q = union(
        product("prog", kind=("prog",), net=("id",), n=(1, 2, 31, 32, 33, 64, 65, 129, 257, 1000), dtype=("float", "double"), enc=("hex", "dec")),
        product("prog", kind=("prog",), net=tuple(NETS), n=(2, 33), binary=(False, True), lib=(True,)),
        product("prog", kind=("prog",), net=tuple(n for n in NETS if n != "mlp"), n=(2,), binary=(False, True), opt=(False, True), algo=("6loops", *(f"{a}_gemm_{b}" for a in ("std", "indirect") for b in ("nn", "tn", "nt", "tt")))),
        product("prog", kind=("prog",), net=("id",), n=(1, 33), dtype=("float", "double"), enc=("hex", "dec"), ext=(True,), verbose=(False, True)),
        product("prog", kind=("prog",), net=("id", "gemm"), n=(1, 33), dtype=("float", "double"), enc=("hex", "dec"), binary=(True,), verbose=(True,)),
        product("prog", kind=("prog",), net=nets + ("maxpool", "xadd", "transpose"), n=(2,), dtype=("float", "double"), enc=("hex",), binary=(False, True), lib=(True,)),
        product("prog", kind=("prog",), net=("gemm", "id"), n=(1, 5, 33, 70, 300), omp=(True,), lib=(True,), dtype=("float", "double")),
        product("prog", kind=("prog",), net=("gemm",), n=(2,), name=("f", "my_net", "inference"), lib=(True,)),
    )
    s = [(n, b, t) for n in range(1, 6) for b in (1, 2, 3) for t in (1, 2, 3) if not (b == 3 and t == 3 and n > 4) and not (b == 2 and t > 2)]
    q = union(q, [(f"sched,{net},n={n},batch={b},team={t},{loop}", dict(kind="sched", net=net, n=n, batch=b, teams=(t,), loop=loop)) for n, b, t in s for loop in ("main", "batch") for net in ("gemm",)],
              [(f"sched,conv,n={n},batch=4,team=4,{loop}", dict(kind="sched", net="conv", n=n, batch=4, teams=(4,), loop=loop)) for n in (3, 4) for loop in ("main", "batch")],
              [(f"sched,{net},{dt},n={n},{loop}", dict(kind="sched", net=net, n=n, dtype=dt, teams=(1, 2, 3, 5, 16, 31, 32, 40), orders=(1, 2, 3, 4), loop=loop))
               for net in ("gemm", "conv") for dt in ("float", "double") for n in (1, 31, 32, 33, 63, 64, 65, 97) for loop in ("main", "batch")])
    q += product("", kind=("whole",), op=("dense", "conv", "flatten", "max"), n=(1, 3, 34), ext=(False, True), verbose=(False, True))
    q += product("", kind=("whole",), op=("dense", "conv"), n=(3, 34), binary=(True,), lib=(True,))
    q += product("copy", kind=("copy",), net=("gemm", "conv"), dtype=("float", "double"), binary=(False, True))
    q += product("copy", kind=("copy",), net=("gemm", "conv", "mm0", "concat", "radd"), dtype=("float", "double"), binary=(True,), new=(True,))
    if c.thorough:
        q = union(q, product("prog", kind=("prog",), net=("id", "gemm"), n=tuple(range(1, 98)), dtype=("float",), enc=("hex",), omp=(False, True)),
                  [(f"sched,conv,n={n},batch={b},team={t},{loop}", dict(kind="sched", net="conv", n=n, batch=b, teams=(t,), loop=loop, limit=400000))
                   for n, b, t in ((6, 3, 2), (7, 3, 2), (8, 2, 2), (5, 3, 3), (6, 3, 3), (5, 5, 2), (6, 6, 2), (8, 8, 2)) for loop in ("main", "batch")],
                  [(f"sched,gemm,allteams,n={n},{loop}", dict(kind="sched", net="gemm", n=n, teams=tuple(range(1, 41)), orders=(1, 2, 3, 4), loop=loop)) for n in range(1, 98) for loop in ("main", "batch")])
    c.run(q, case)
    c.assumptions = ["a call of inference() is atomic here; C13 decides its interleavings with other calls at every memory access",
                     "the OpenMP runtime executes a parallel region with a team of at most the requested number of threads"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
