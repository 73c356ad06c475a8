"""C13: a call of inference() depends on its input only and touches nothing but its own context and result.

The generated code is compiled with access hooks (lib/interleave.c). The first execution decides the independence of two calls access by access; then two calls are interleaved at
every memory access (one hand-over: all places; two hand-overs: all pairs, for short programs), from several initial memory contents, and have to give the results they give alone."""
import subprocess
import sys

import numpy as np

import acx
from acx import Bad, count, gen_files, make_generator, node, onnx_model, product, run_exe, scratch, union
from C11 import ALGOS, PROD, act_node, producer
from C18 import bounds
from models import infer, ints
from nets import NETS
from nnet import weights, write


def build(d, ctype, fname="inference"):
    inst = ["-fsanitize=thread", "-fsanitize=bounds", "-fsanitize-trap=bounds", "-O0", "-fno-vectorize", "-fno-slp-vectorize", "-mllvm", "-tsan-instrument-read-before-write=1"]
    for s in ("inference.c", "global_vars.c", "parameters.c"):
        r = subprocess.run(["clang", "-w", *inst, "-c", s, "-o", f"i_{s}.o"], cwd=d, capture_output=True, text=True, timeout=200)
        if r.returncode:
            raise Bad("compile", r.stderr[-250:])
    r = subprocess.run(["gcc", "-w", "-O1", f"-I{d}", f"-DT={ctype}", *([f"-Dinference={fname}"] if fname != "inference" else []), "-o", "il", str(acx.LIB / "interleave.c"),
                        "i_inference.c.o", "i_global_vars.c.o", "i_parameters.c.o", "-lm"], cwd=d, capture_output=True, text=True, timeout=200)
    if r.returncode:
        raise Bad("compile", r.stderr[-250:])
    return d / "il"


def explore(model, X, osize, limit2, limit1=6000, **kw):
    with scratch() as d:
        gen = make_generator(model, X, **kw)
        gen_files(gen, d)
        il = build(d, gen.data_type)
        np.ascontiguousarray(X.reshape(len(X), -1).astype(acx.CTYPES[gen.data_type])).tofile(d / "in.bin")
        r = run_exe([il, d / "in.bin", len(X), X[0].size, osize, limit2, limit1], timeout=300)
        v = dict(l.split(" ", 1) for l in r.stdout.decode().splitlines() if " " in l)
        count("states", int(v["len"]))
        count("transitions", int(v["schedules"]))
        count("traces")
        count("schedules", int(v["schedules"]))
        count("all_pairs_programs", int(v["pairs"]))
        count("strided_programs", int(int(v["stride"]) > 1))
        fails = []
        for k, a, t in (("shared_writes", "shared", "accesses shared by all calls are written"), ("stale_reads", "history", "reads of memory the call did not write"),
                        ("foreign", "memory", "accesses outside the call's own memory"), ("input_writes", "input", "writes to the caller's input")):
            if int(v[k]):
                fails.append((a, f"{v[k]} {t}: {v.get('note', '')}"))
        if "unwritten" in v:
            fails.append(("result", f"element {v['unwritten']} of the result is not written"))
        b = v["bad"].split()
        if b[0] != "0":
            fails.append(("schedule", f"call {int(b[0]) - 1} gives another result when interleaved at access {b[1]}" + (f" and {b[2]}" if b[2] != "-1" else "")))
        return fails


def case(prod, act="None", algo=None, opt=False, tail="end", dtype="float", limit2=300, fmt=None):
    I = {}
    nodes, shp = producer(prod, I)
    out = "y"
    if act != "None":
        nodes += act_node(act, "y", "z", I)
        out = "z"
    if tail == "fork":
        nodes += [node("Tanh", [out], ["o1"]), node("LeakyRelu", [out], ["o2"], alpha=2.0), node("Sub", ["o1", "o2"], ["o"])]
        out = "o"
    elif tail in ("shrink", "grow"):        # tensors of different sizes kept in the same shared buffer: the larger one first, or last
        I["kax"] = np.array([-1], np.int64)
        nodes += [node("Relu", [out], ["k0"]), node("LeakyRelu", ["k0"], ["k1"], alpha=2.0), node("Sub", ["k0", "k1"], ["k2"]), node("ReduceSum", ["k2", "kax"], ["k3"], keepdims=1),
                  node("LeakyRelu", ["k3"], ["k4"], alpha=3.0), node("Sub", ["k3", "k4"], ["o"])]
        if tail == "grow":
            nodes[-1] = node("Add", ["k3", "k4"], ["k5"])
            I["kwide"] = ints((9,))
            nodes += [node("Add", ["k5", "kwide"], ["k6"]), node("LeakyRelu", ["k6"], ["k7"], alpha=4.0), node("Sub", ["k6", "k7"], ["o"])]
        out = "o"
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    I = {k: v.astype(nt) if v.dtype == np.float32 and k not in ("sc", "roi") else v for k, v in I.items()}
    m = infer(onnx_model(nodes, [("X", shp, t)], [(out, (), t)], I, opset=13))
    k = int(np.prod(shp))
    X = np.stack([(np.arange(k) * a % 7 - b) / 2 for a, b in ((3, 3), (5, 2.5))]).astype(nt).reshape(2, *shp[1:])
    X[X == 0] = 0.25
    osize = int(np.prod([x.dim_value for x in m.graph.output[0].type.tensor_type.shape.dim]))
    kw = {"versions": {"Conv2D": algo}} if algo else {}
    if not fmt:
        return explore(m, X, osize, limit2, optimization=opt, **kw)
    kw["versions"].update({"MaxPooling2D": fmt, "AveragePooling2D": fmt})
    try:
        return explore(m, X, osize, limit2, optimization=opt, gen_data_format=fmt, **kw)
    except Bad as b:
        if b.stage not in ("import", "codegen"):
            raise
        count("refused")
        return []


def nnet_case(sizes, norm, limit2, opt=False):
    W, B = weights(sizes)
    nm = bounds("shift", sizes[0])
    X = np.array([[-1.5, 2, 7, 3][:sizes[0]], [5, -3, 1, 0.5][:sizes[0]]], np.float32).reshape(2, 1, sizes[0])
    with scratch() as d:
        write(d / "n.nnet", sizes, W, B, *nm)
        return explore(d / "n.nnet", X, sizes[-1], limit2, normalize=norm, optimization=opt)


def net_case(net, algo=None, opt=False, limit1=3000):
    """A network of many layers of many sizes."""
    m, shape = NETS[net]()
    n = int(np.prod(shape))
    X = np.stack([np.sin(np.arange(n) * (.7 + .3 * k) + k) for k in range(2)]).astype(np.float32).reshape(2, 1, n)
    osize = int(np.prod([x.dim_value for x in m.graph.output[0].type.tensor_type.shape.dim]))
    return explore(m, X, osize, 0, limit1, optimization=opt, **({"versions": {"Conv2D": algo}} if algo else {}))


def two_case(first, second, algo):
    """Two layers with work space of their own, in both orders of size."""
    I = {}

    def add(kind, x, y, c):
        I["w" + y] = ints((2, c, 3, 3), 5, 1, 7, 3)
        I["i" + y] = np.array([1, 0, 1, 1, 0], np.int64)
        return {"unfold": [node("Conv", [x, "w" + y], [y], kernel_shape=[3, 3], pads=[1, 1, 1, 1])], "stride": [node("Conv", [x, "w" + y], [y], kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1])],
                "concat": [node("Concat", [x, x, x], ["c" + y], axis=1), node("ReduceSum", ["c" + y, "ax"], [y], keepdims=1)], "gather": [node("Gather", [x, "i" + y], [y], axis=2)],
                "pool": [node("MaxPool", [x], [y], kernel_shape=[2, 2], strides=[1, 1])], "pad": [node("Pad", [x, "pads"], [y])],
                "tile": [node("Tile", [x, "rep"], [y])]}[kind]
    I["ax"], I["pads"], I["rep"] = (np.array(a, np.int64) for a in ([1], [0, 0, 1, 1, 0, 0, 0, 1], [1, 2, 2, 1]))
    ch = {"concat": 1, "gather": 2, "pool": 2, "pad": 2, "tile": 4}.get(first, 2)
    nodes = add(first, "X", "a", 2) + add(second, "a", "y", ch)
    used = {i for n in nodes for i in n.input}
    m = infer(onnx_model(nodes, [("X", (1, 2, 4, 4))], [("y", ())], {k: v for k, v in I.items() if k in used}, opset=13))
    X = np.stack([(np.arange(32) * a % 7 - b) / 2 for a, b in ((3, 3), (5, 2.5))]).astype(np.float32).reshape(2, 1, 32)
    osize = int(np.prod([x.dim_value for x in m.graph.output[0].type.tensor_type.shape.dim]))
    return explore(m, X, osize, 0, 400, **({"versions": {"Conv2D": algo}} if algo else {}))


def any_case(**kw):
    if "net" in kw:
        return net_case(**kw)
    if "first" in kw:
        return two_case(**kw)
    return nnet_case(**kw) if "sizes" in kw else case(**kw)


def main():
    acx.import_target()
    c = acx.Check("C13", level="model_checking", rule="a state is a position (memory access) of a call, a transition a complete schedule of two calls over the hooked program; a trace is one generated "
                  "program; every place of one hand-over is explored for each program, every pair of places for the programs of at most the stated number of accesses")
    l2 = 900 if c.thorough else 300
    q = union(
        product(prod=PROD, act=("None", "Relu", "Sigmoid"), opt=(False, True), limit2=(l2,), keep=lambda act, opt, **k: opt or act != "Sigmoid"),
        product(prod=PROD, act=("None",), tail=("fork", "shrink", "grow"), limit2=(l2,)),
        product(prod=("conv", "convbn"), act=("None", "LeakyRelu"), algo=(*ALGOS, "direct_block"), opt=(False, True), limit2=(l2,)),
        product(prod=("conv", "maxpool", "avgpool"), act=("None", "Relu", "LeakyRelu"), algo=("direct_block",), fmt=("channels_last",), limit2=(l2,)),
        product(prod=PROD, act=("Relu",), opt=(False,), dtype=("double",), limit2=(0,)),
    )
    q = [(i, p) for i, p in q if not (p.get("algo") == "direct_block" and not p.get("fmt"))]
    if c.thorough:
        q = union(q, product(prod=PROD, act=("Tanh", "Silu", "Clip"), tail=("end", "fork"), opt=(False, True), limit2=(l2,)))
    q += product("nnet", sizes=((2, 3, 2), (3, 2), (2, 2, 2, 1), (4, 3)), norm=(False, True), limit2=(l2,), opt=(False, True))
    kinds = ("unfold", "stride", "concat", "gather", "pool", "pad", "tile")
    q += product("two ", first=kinds, second=kinds, algo=("std_gemm_nn", "std_gemm_tt", "indirect_gemm_nn", "6loops"), keep=lambda first, second, algo: algo == "std_gemm_nn" or {first, second} & {"unfold", "stride"})
    q += product("net ", net=tuple(NETS), algo=(None, "std_gemm_nt", "indirect_gemm_tn", "6loops"), opt=(False, True), limit1=(300,), keep=lambda net, algo, **k: algo is None or net != "mlp")
    c.run(q, any_case)
    c.assumptions = ["accesses made inside the C library (expf, ...) are not interleaved", "hand-overs are sequentially consistent: two calls that share no written location cannot be told apart by a weaker memory model"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
