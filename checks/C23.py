"""C23: debug mode reports the value of every layer, and changes nothing else.

Every network of the enumeration is generated with debug_mode="onnx" (or "keras"); every intermediate value reported by the Python inference, and every one written by the compiled C code to
debug_file.txt and read back with the debug tools, is compared with the tensor of that layer in onnxruntime (or in the evaluator of the JSON networks). The documented workflow is followed as well:
debug_onnx, reorder_outputs, compare_result, and the selection of every single layer by its tensor name."""
import contextlib
import copy
import io
import re
import sys

import numpy as np

import acx
import graphs as G
import jsonnet
from acx import Bad, compile_c, count, gen_files, make_generator, mismatch, node, onnx_model, ort_run, product, run_c, scratch, union
from C11 import ALGOS, layer_model
from models import infer, ints
from nets import NETS

BYPASSED = ("Flatten", "Reshape", "Dropout", "Unsqueeze", "Constant")


def special(name):
    I = {"w": ints((2, 2, 2, 2), 5, 1, 7, 3), "w2": ints((2, 2, 1, 1), 3, 1, 5, 2), "f": ints((24, 3), 5, 2, 7, 3), "fb": ints((3,), 3, 2, 5, 2), "k": ints((1, 2, 1, 1), 3, 0, 5, 2), "sh": np.array([1, -1], np.int64)}
    conv = lambda i, o, w="w2", k=1: node("Conv", [i, w], [o], kernel_shape=[k, k])
    gemm = lambda i, o: node("Gemm", [i, "f", "fb"], [o])
    out = "o"
    if name == "flatten end":
        N = [conv("X", "a"), node("Relu", ["a"], ["b"]), node("Flatten", ["b"], ["o"])]
    elif name == "flatten act":
        N = [conv("X", "a"), node("Flatten", ["a"], ["b"]), node("Relu", ["b"], ["c"]), gemm("c", "o")]
    elif name == "reshape":
        N = [conv("X", "a"), node("Reshape", ["a", "sh"], ["b"]), gemm("b", "c"), node("Tanh", ["c"], ["d"]), node("Dropout", ["d"], ["e"]), node("Softmax", ["e"], ["o"])]
    elif name == "constant":
        import onnx
        N = [node("Constant", [], ["q"], value=onnx.numpy_helper.from_array(I["k"])), conv("X", "a"), node("Mul", ["a", "q"], ["b"]), node("Sub", ["q", "b"], ["o"])]
    elif name == "dead":
        N = [conv("X", "z"), conv("X", "a"), node("Tanh", ["z"], ["y"]), node("Relu", ["a"], ["b"]), conv("b", "o")]
    elif name == "branches":         # two activations after the layers they follow
        N = [conv("X", "a"), conv("X", "b"), node("Relu", ["a"], ["c"]), node("Tanh", ["b"], ["d"]), node("Sub", ["c", "d"], ["o"])]
    elif name == "both":
        N = [conv("X", "a"), node("Relu", ["a"], ["c"]), node("Sub", ["c", "a"], ["o"])]
    elif name == "many":             # indices with two digits
        N = [conv("X" if k == 0 else f"t{k - 1}", f"t{k}") if k % 2 == 0 else node("LeakyRelu", [f"t{k - 1}"], [f"t{k}"], alpha=0.5) for k in range(23)]
        I["w2"] = np.array([1, -1, 0, 1], np.float32).reshape(2, 2, 1, 1)
        out = "t22"
    elif name == "spaces":
        N = [conv("X", "a b"), node("Relu", ["a b"], ["c/d:0"]), conv("c/d:0", "o")]
    elif name == "constant layer":   # an initializer that becomes a layer
        I["g"] = ints((1, 2, 3, 4), 3, 0, 5, 2)
        N = [conv("X", "a"), node("MatMul", ["a", "m"], ["b"]), node("Add", ["g", "b"], ["o"])]
        I["m"] = ints((4, 4), 3, 1, 5, 2)
    elif name == "softmax first":
        I["h"] = ints((4, 3), 5, 2, 7, 3)
        m = infer(onnx_model([node("Softmax", ["X"], ["a"], axis=1), node("Gemm", ["a", "h", "fb"], ["o"])], [("X", (1, 4))], [("o", ())], I))
        return m, np.array([[1, -2, 3, .5], [2, 2, -1, 0]], np.float32), (1, 4)
    m = infer(onnx_model(N, [("X", (1, 2, 3, 4))], [(out, ())], I))
    k = np.arange(24)
    return m, np.stack([((k * a) % 7 - b).astype(np.float32) / 2 for a, b in ((3, 3), (5, 2.5))]).reshape(2, 2, 3, 4), (1, 2, 3, 4)


SPECIAL = ("flatten end", "flatten act", "reshape", "constant", "dead", "branches", "both", "many", "spaces", "constant layer", "softmax first")


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def labelled(gen, outs, names, what):
    """Name of the layer in the model -> value."""
    by = {l.idx: l for l in gen.layers}
    d, fails = {}, []
    for o, t in zip(outs, names, strict=True):
        idx = int(t.split(" ")[-1])
        if idx not in by:
            fails.append((what, f"layer {t} is not in the network"))
            continue
        if t.split(" ")[0] != by[idx].name:
            fails.append((what, f"value named {t}, the layer {idx} is {by[idx].name}"))
        name = re.split(r" fused? with ", by[idx].original_name)[-1]
        if name in d:
            fails.append((what, f"layer {name} reported twice"))
        d[name] = np.asarray(o).reshape(-1)
    return d, fails


def observe(gen, d, X, osize):
    """-> reported by Python, by C, predictions."""
    import acetone_nnet.debug as D
    try:
        po, pt = quiet(D.reorder_outputs, *gen.compute_inference(str(d)))
    except Exception as e:
        raise Bad("python", f"{type(e).__name__}: {e}") from e
    gen_files(gen, d)
    exe = compile_c(d, gen.data_type)
    pred = run_c(exe, d, X, osize, gen.data_type)
    try:
        co, ct = D.extract_outputs_c(d / "debug_file.txt", gen.data_type, len(gen.debug_target))
    except Exception as e:
        raise Bad("debug file", f"{type(e).__name__}: {e}") from e
    number = float.fromhex if np.issubdtype(gen.data_type_py, np.floating) else int
    text = [list(map(number, l.split())) for l in (d / "output_python.txt").read_text().splitlines()]
    return (po, pt), (co, ct), pred, np.array(text)


def compare(gen, got, want, fails, tol):
    d = {}
    for what, (o, t) in got.items():
        d[what], f = labelled(gen, o, t, what)
        fails += f
        missing, extra = set(want) - set(d[what]), set(d[what]) - set(want)
        if missing or extra:
            fails.append((what, f"layers not reported: {sorted(missing)}; reported, and not in the network: {sorted(extra)}"))
        for n in want:
            if n in d[what]:
                count("values")
                m = mismatch(d[what][n], want[n].reshape(-1), tol, tol, f"{what}: layer {n}")
                if m:
                    fails.append((what, m))
    return d


def onnx_case(m, X, shp, opt=False, algo=None, fmt=None, tol=2e-5):
    import acetone_nnet.debug as D
    import onnx
    original = m.SerializeToString()
    alln = copy.deepcopy(m)
    del alln.graph.output[:]
    outs = [n.output[0] for n in m.graph.node if n.op_type not in ("Constant",)]
    alln.graph.output.extend(onnx.ValueInfoProto(name=o) for o in outs)
    tensors = {o: ort_run(alln, X[-1:], shp, out=o)[0] for o in outs}
    want_pred = ort_run(m, X, shp)
    need, used = {m.graph.output[0].name}, []
    for n in reversed(m.graph.node):
        if n.output[0] in need:
            used.insert(0, n)
            need |= set(n.input)
    layers = [n for n in used if n.op_type not in BYPASSED]
    fails = []
    kw = {"optimization": opt, "debug_mode": "onnx"}
    if algo:
        kw["versions"] = {"Conv2D": algo}
    if fmt:
        kw |= {"gen_data_format": fmt, "versions": {"Conv2D": "6loops", "MaxPooling2D": fmt, "AveragePooling2D": fmt}}
        if algo:
            kw["versions"]["Conv2D"] = algo
    with scratch() as d:
        try:
            gen = make_generator(m, X, **kw)
        except Bad:
            if fmt:
                count("refused")
                return []
            raise
        # the layers of the generated network: the last of the fused ones gives the value
        shown = {re.split(r" fused? with ", l.original_name)[-1]: 1 for l in gen.layers[1:] if l.name != "Constant"}
        names = {n.name: n.output[0] for n in layers}
        if not opt and set(shown) != set(names):
            return [("layers", f"layers {sorted(shown)}, network {sorted(names)}")]
        want = {n: tensors[names[n]] for n in shown if n in names}
        py, c, pred, text = observe(gen, d, X, want_pred.shape[1])
        compare(gen, {"python": py, "c": c}, want, fails, tol)
        for what, p in (("c prediction", pred), ("python prediction", text)):
            mm = mismatch(p, want_pred, tol, tol, what)
            if mm:
                fails.append(("prediction", mm))
        count("programs")
        # the documented workflow
        model = onnx.load_from_string(original)
        fused = opt and not any(re.search(" fuse with | fused with BatchNorm", l.original_name) for l in gen.layers) and len({i for n in layers for i in n.input[:1]}) == len(layers)
        if not opt or fused:
            model, idxs, ref = quiet(D.debug_onnx, model, X[-1].reshape(shp), optimized_model=opt)
            if idxs:
                fails.append(("targets", f"indices {idxs} without targets"))
            for what, (o, t) in (("python", py), ("c", c)):
                if not quiet(D.compare_result, o, ref, t, atol=tol, rtol=tol):
                    fails.append(("workflow", f"debug_onnx and {what} do not agree: {len(ref)} values, {len(o)} layers"))
                if not quiet(D.compare_result, o, ref, t, atol=tol, rtol=tol, verbose=True):
                    fails.append(("workflow", "compare_result depends on verbose"))
            for n in range(len(ref)):
                for v in (False, True):
                    if quiet(D.compare_result, py[0][:n], ref, py[1], atol=tol, rtol=tol, verbose=v):
                        fails.append(("workflow", f"compare_result does not notice that {len(ref) - n} layers are missing"))
            bad = [r.copy() for r in ref]
            for k in range(len(ref)):        # every single difference is noticed
                for e in {0, ref[k].size // 2, ref[k].size - 1}:
                    keep = bad[k][e]
                    bad[k][e] = keep + 1 + abs(keep)
                    count("differences")
                    if any(quiet(D.compare_result, py[0], bad, py[1], atol=tol, rtol=tol, verbose=v) for v in (False, True)):
                        fails.append(("workflow", f"compare_result does not notice a difference in element {e} of layer {k}"))
                    bad[k][e] = keep
            try:                              # the model it gives back is the network as well
                again = make_generator(model, X, **kw)
                if [l.original_name for l in again.layers] != [l.original_name for l in gen.layers]:
                    fails.append(("workflow", "the model of debug_onnx is another network"))
            except Bad as b:
                fails.append(("workflow", f"the model of debug_onnx cannot be imported: {b.msg}"))
        if not opt:
            final = [n for n in layers][-1]
            for n in layers:
                for path in (False,) if n is not layers[0] else (False, True):
                    if path:
                        onnx.save(onnx.load_from_string(original), d / "m.onnx")
                    src = d / "m.onnx" if path else onnx.load_from_string(original)
                    _, idxs, ref = quiet(D.debug_onnx, src, X[-1].reshape(shp), debug_target=[n.output[0]])
                    o, t = D.extract_outputs_python(py, idxs)
                    count("selections")
                    sel, f = labelled(gen, o, t, "selection")
                    fails += f
                    if n.name not in sel or set(sel) - {n.name, final.name}:
                        fails.append(("selection", f"{sorted(sel)} selected for {n.name}"))
                    elif not quiet(D.compare_result, o, ref, t, atol=tol, rtol=tol):
                        fails.append(("selection", f"layer {n.name}: its value is not the one of debug_onnx"))
    return fails


def quant_case(net, dt, fm, opt=False):
    """The integers of every layer of a fixed-point network."""
    import C19
    acx.CTYPES["signed char"] = "i1"
    fails = []
    with scratch() as d:
        p = C19.prepare(d, net, dt, fm, "small", debug_mode="onnx", optimization=opt)
        steps = C19.network(net, dt, fm, "small")[2]
        gen, X, pred, _ = p
        (d / "g").mkdir()
        want, a = {}, X[-1]
        for k, f in enumerate(steps):
            a = want[f"nY{k}"] = f(a)
        shown = {re.split(r" fused? with ", l.original_name)[-1] for l in gen.layers}
        want = {n: np.asarray(v) for n, v in want.items() if n in shown}
        py, c, cp, text = observe(gen, d / "g", X, pred.shape[1])
        compare(gen, {"python": py, "c": c}, want, fails, 0)
        for what, v in (("c prediction", cp), ("python prediction", text)):
            mm = mismatch(v, pred, 0, 0, what)
            if mm:
                fails.append(("prediction", mm))
        count("programs")
    return fails


def saved_case(m, X, shp):
    """debug_onnx on a model that lists its constants as inputs, as older exporters do: they are removed, and the model is saved."""
    import acetone_nnet.debug as D
    import onnx
    fails = []
    plain, _, ref = quiet(D.debug_onnx, onnx.load_from_string(m.SerializeToString()), X[-1].reshape(shp))
    for last in (False, True):
        old = onnx.load_from_string(m.SerializeToString())
        names = [i.name for i in old.graph.input]
        more = [onnx.helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)) for t in old.graph.initializer]
        more = [*more, *old.graph.input] if last else [*old.graph.input, *more]
        del old.graph.input[:]
        old.graph.input.extend(more)
        with scratch() as d:
            res, idxs, got = quiet(D.debug_onnx, old, X[-1].reshape(shp), to_save=True, path=d / "s.onnx", optimize_inputs=True)
            saved = onnx.load(d / "s.onnx")
        if saved != res:
            fails.append(("save", "the saved model is not the one that was run"))
        if [i.name for i in saved.graph.input] != names:
            fails.append(("inputs", f"inputs {[i.name for i in saved.graph.input]} instead of {names}"))
        outs = [o.name for o in plain.graph.output]
        if sorted(o.name for o in saved.graph.output) != sorted(outs) or saved.graph.output[0].name != m.graph.output[0].name:
            fails.append(("outputs", f"outputs {[o.name for o in saved.graph.output]} instead of {outs}"))
        if idxs or len(got) != len(ref) or not all(np.array_equal(a, b) for a, b in zip(got, ref)):
            fails.append(("values", "the values of the layers differ"))
        again = [ort_run(saved, X[-1:], shp, in_name=names[0], out=o.name)[0] for o in saved.graph.output]
        again = again[1:] + again[:1]
        if not all(np.allclose(x, np.asarray(r).reshape(-1), 1e-4, 1e-4) for x, r in zip(again, ref)):
            fails.append(("values", "the saved model gives other values"))
        count("saved models")
    return fails


# The event counter of the target: one that is reset, one that is not, one that overflows while the layers run. Its n-th reading is n*n after the last one.
COUNTER = """static unsigned long long acx_n, acx_now = %s;
static int acx_on;
static void select_evt_counter(int c) { (void)c; }
static void event_track(int c) { (void)c; }
static void enable_evt_counter(int c) { (void)c; acx_on = 1; }
static void reset_evt_counter(int c) { (void)c; %s; }
static unsigned long long read_evt_counter(void) { ++acx_n; if (acx_on) acx_now += acx_n * acx_n; return acx_now; }
"""
COUNTERS = (("0", "acx_now = 0"), ("1000", ""), ("-1ull", "acx_now = -1ull"), ("-90ull", ""))


def time_case(m, X, shp, opt=False, algo=None, tol=2e-5):
    """debug_mode="time": each layer is measured once, in the order of execution, whatever the counter of the target."""
    fails = []
    want = ort_run(m, X, shp)
    with scratch() as d:
        gen = make_generator(m, X, debug_mode="time", optimization=opt, **({"versions": {"Conv2D": algo}} if algo else {}))
        gen_files(gen, d)
        for start, reset in COUNTERS:
            (d / "MMU.h").write_text("")
            (d / "PMH.h").write_text(COUNTER % (start, reset))
            exe = compile_c(d, gen.data_type)
            pred = run_c(exe, d, X, want.shape[1], gen.data_type)
            mm = mismatch(pred, want, tol, tol, "prediction with time measurement")
            if mm:
                fails.append(("prediction", mm))
            out = acx.run_exe([exe, d / "in.bin", d / "out.bin", len(X), X[0].size, want.shape[1]]).stdout.decode()
            k, lines = 0, []
            for _ in range(3 * len(X)):
                total = 0
                for name in [f"{l.name} {l.idx}" for l in gen.layers] + ["output"]:
                    lines.append(f"time {name}: {(2 * k + 2) ** 2}")
                    total += (2 * k + 2) ** 2
                    k += 1
                lines.append(f"time total time: {total}")
            got = [l for l in out.splitlines() if l]
            count("measures", len(got))
            if got != lines:
                i = next((i for i, (a, b) in enumerate(zip(got, lines)) if a != b), min(len(got), len(lines)))
                fails.append(("time", f"line {i} is {got[i:i + 1]}, expected {lines[i:i + 1]} (counter {start}, {reset or 'never reset'})"))
                break
    count("programs")
    return fails


def json_case(net, src, opt=False, gen_fmt="channels_first", **kw):
    try:
        n = jsonnet.build(net, src, kw.pop("dtype", "float32"), **kw)
        k = np.arange(int(np.prod(n.shape[0])))
        X = np.stack([(k * a + b) % m - o for a, b, m, o in ((5, 0, 13, 6), (3, 1, 7, 3))]).astype(np.float32)
        vals = [n.values(x.reshape(n.shape[0])) for x in X]
        if not all(v.size for v in vals[0]):
            raise ValueError
    except (ValueError, ZeroDivisionError, IndexError, np.exceptions.AxisError):
        count("not a valid network")
        return []
    last = lambda v: v.transpose(1, 2, 0) if v.ndim == 3 and src == "channels_last" else v
    rows = np.stack([last(x.reshape(n.shape[0])).reshape(1, -1) for x in X])
    want, fails = {}, []
    with scratch() as d:
        n.dump(d / "net.json")
        gen = make_generator(str(d / "net.json"), rows, debug_mode="keras", optimization=opt, gen_data_format=gen_fmt)
        for i, L in enumerate(n.layers):
            if i and L["class_name"] not in ("Dropout", "Flatten"):
                want[L["config"]["name"]] = last(vals[-1][i])
        # a softmax is a layer of its own, after the one whose activation it is
        seen, prev = {}, None
        for l in gen.layers[1:]:
            name = re.split(r" fused? with ", l.original_name)[-1]
            if l.name == "Softmax" and prev in want:
                seen.pop(prev, None)
                seen[name] = want[prev]
            elif name in want:
                seen[name] = want[name]
            prev = name
        py, c, pred, text = observe(gen, d, rows, vals[0][-1].size)
        py, c = ([(o, t) for o, t in zip(*w, strict=True) if "Flatten" not in t] for w in (py, c))
        py, c = (tuple(zip(*w)) if w else ((), ()) for w in (py, c))
        compare(gen, {"python": py, "c": c}, seen, fails, 1e-5)
        wp = np.stack([last(v[-1]).reshape(-1) for v in vals])
        for what, p in (("c prediction", pred), ("python prediction", text)):
            mm = mismatch(p, wp, 1e-5, 1e-5, what)
            if mm:
                fails.append(("prediction", mm))
        count("programs")
    return fails


def case(kind, **kw):
    try:
        if kind == "quant":
            return quant_case(**kw)
        mode = kw.pop("mode", None)
        if mode:
            if kind == "special":
                m, X, shp = special(kw["name"])
            elif kind == "net":
                m, shp = NETS[kw["name"]]()
                X = np.cos(np.arange(2 * int(np.prod(shp))) * .7).astype(np.float32).reshape(2, *shp)
            else:
                m, X, shp = layer_model(kw["prod"], kw["act"], kw["tail"], dtype=kw.get("dtype", "float"))
            return saved_case(m, X, shp) if mode == "saved" else time_case(m, X, shp, opt=kw["opt"], algo=kw.get("algo"))
        if kind == "json":
            return json_case(**kw)
        if kind == "special":
            return onnx_case(*special(kw["name"]), opt=kw["opt"])
        if kind == "net":
            m, shp = NETS[kw["name"]]()
            n = int(np.prod(shp))
            X = np.stack([np.sin(np.arange(n) * (.7 + .3 * k) + k) for k in range(2)]).astype(np.float32).reshape(2, *shp)
            return onnx_case(m, X, shp, opt=kw["opt"], algo=kw["algo"])
        if kind == "graph":
            fails = []
            for g in G.graphs(kw["n"], kw["kinds"], kw["prefix"]):
                X = np.stack([G.X0[::-1], G.X0]).reshape(2, 1, 1, 4)
                fails += [(a, f"graph {G.txt(g)}: {m}") for a, m in onnx_case(G.onnx_graph(g), X, (1, 1, 1, 4), opt=kw["opt"])]
                if len(fails) > 5:
                    break
            return fails
        m, X, shp = layer_model(kw["prod"], kw["act"], kw["tail"], dtype=kw.get("dtype", "float"))
        return onnx_case(m, X, shp, opt=kw["opt"], algo=kw.get("algo"), fmt=kw.get("fmt"))
    except Bad as b:
        return [(b.stage, b.msg)]


def main():
    acx.import_target()
    c = acx.Check("C23", rule="one case per network: the value of every layer, from Python, from the file written by the compiled C, and from the reference; non-trivial when the reference values differ")
    from C11 import PROD
    acts, tails = ("Relu", "Silu", "None"), ("end", "next", "both")
    q = union(
        product(kind=("layer",), prod=PROD, act=("Relu", "None"), tail=("next",), opt=(False, True)),
        product(kind=("layer",), prod=("conv", "gemm", "mm2", "xadd", "convbn", "maxpool"), act=acts, tail=tails if not c.thorough else (*tails, "twice", "act2", "prodnext"), opt=(False, True), keep=lambda act, tail, **_: act != "None" or tail != "both"),
        product(kind=("layer",), prod=("conv", "gemm", "xadd", "softmax", "transpose"), act=("Relu", "Tanh"), tail=("next",), opt=(False, True), dtype=("double",), keep=lambda prod, **_: prod != "conv"),
        product(kind=("layer",), prod=("conv", "maxpool", "avgpool", "convbn"), act=("Relu", "None"), tail=("end", "next"), opt=(False,), fmt=("channels_last",), algo=("6loops", "direct_block", *(ALGOS[1:3] if c.thorough else ()))),
        product(kind=("net",), name=tuple(NETS), opt=(False, True), algo=("6loops", "std_gemm_nn")),
        product(kind=("special",), name=SPECIAL, opt=(False, True)),
        product(kind=("layer",), mode=("time",), prod=PROD, act=("Relu", "None"), tail=("next",), opt=(False, True)),
        product(kind=("special",), mode=("time",), name=SPECIAL, opt=(False, True)),
        product(kind=("net",), mode=("time",), name=tuple(NETS), opt=(True,), algo=("6loops", "std_gemm_nn")),
        product(kind=("layer",), mode=("saved",), prod=PROD, act=("Relu",), tail=("next",), dtype=("float",)),
        product(kind=("special",), mode=("saved",), name=tuple(n for n in SPECIAL if n != "flatten end")),
        product(kind=("net",), mode=("saved",), name=tuple(NETS)),
        product(kind=("quant",), net=("mm", "mm relu", "mm add relu", "mm mm", "add relu", "lmm", "relu mm"), dt=("int8", "int16", "int32"), fm=((3, 2, 4), (2, 3, 1)), opt=(False, True),
                keep=lambda net, opt, **_: not (opt and "add" in net)),      # an addition that overflows, and is fused with an activation, is outside the property
        [(f"graph {p}{k},n={n},opt={o}", dict(kind="graph", n=n, kinds=k, prefix=p, opt=o)) for o in (False, True)
         for n, k, ps in ([(2, "acs", [()]), (2, "edk", [()]), (3, "as", [(x,) for x in (("a", 0), ("c", 0), ("s", 0, 0))])]) for p in ps],
    )
    J = lambda **kw: ("json " + ",".join(f"{k}={v}" for k, v in kw.items()), dict(kind="json", **kw))
    ops = [o for o, _ in jsonnet.OPS]
    for src in ("channels_last", "channels_first"):
        q += [J(net="ops", src=src, op=a, post=b) for a in ops[6:] if a[:3] not in ("Add", "Mul", "Sub", "Max", "Min", "Ave", "cat", "fla") for b in (("conv", "max", "bn") if not c.thorough else ops[6:20])]
        q += [J(net="dense", src=src, op=o, opt=t) for o in ops[:6] for t in (False, True)]
        q += [J(net="merge", src=src, op=o) for o in ("Add", "Subtract", "cat1", "cat3")]
        q += [J(net=k, src=src, opt=t) for k in ("skip", "soft") for t in (False, True)]
    c.run(q, case)
    c.assumptions = ["the value of several fused layers is the one of the last", "debug_keras is not covered (TensorFlow is absent)", "the event counter of the target (MMU.h, PMH.h) is replaced by four models of one"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
