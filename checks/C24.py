"""C24: the implementation asked for is the one used, and only that one.

Networks with several layers of every kind; every assignment of implementations by layer number, by layer kind and none; implementations registered by the user, recognisable by their result; every
sequence of registrations up to a depth against a model of the registry; every set of replaced generation functions against the files of the plain generation; every set of Makefile properties against
the commands the Makefile runs."""
import contextlib
import itertools
import json
import os
import subprocess
import sys

import numpy as np

import acx
from acx import Bad, compile_c, count, gen_files, make_generator, mismatch, node, onnx_model, ort_run, py_reference, run_c, scratch
from models import infer, ints

I64 = lambda *v: np.array(v, np.int64)
F = lambda *s: ints(s, m=7, off=3)
# layer of ACETONE -> (operator, attributes, operands, rank)
KINDS = {
    "Add": ("Add", {}, ["X", "X"]), "Subtract": ("Sub", {}, ["X", F(1, 2, 1, 4)]), "Multiply": ("Mul", {}, ["X", "X"]), "Divide": ("Div", {}, ["X", F(1, 2, 4, 4)]), "Maximum": ("Max", {}, ["X", F(1, 1, 4, 1)]), "Minimum": ("Min", {}, ["X", F(1, 2, 1, 1)]),
    "Average": ("Mean", {}, ["X", F(1, 2, 4, 4)]), "AveragePooling2D": ("AveragePool", dict(kernel_shape=[2, 2]), ["X"]), "MaxPooling2D": ("MaxPool", dict(kernel_shape=[3, 3], strides=[1, 1]), ["X"]),
    "BatchNormalization": ("BatchNormalization", {}, ["X", F(2), F(2), F(2), np.array([3, 8], np.float32)]), "Clip": ("Clip", {}, ["X", np.float32(-2), np.float32(3)]), "Concatenate": ("Concat", dict(axis=2), ["X", "X"]),
    "ConstantPad": ("Pad", {}, ["X", I64(0, 0, 1, 0, 0, 0, 0, 2)]), "EdgePad": ("Pad", dict(mode="edge"), ["X", I64(0, 0, 1, 0, 0, 0, 0, 2)]), "ReflectPad": ("Pad", dict(mode="reflect"), ["X", I64(0, 0, 1, 0, 0, 0, 0, 2)]), "WrapPad": ("Pad", dict(mode="wrap"), ["X", I64(0, 0, 1, 0, 0, 0, 0, 2)]),
    "Conv2D": ("Conv", dict(kernel_shape=[2, 2]), ["X", F(3, 2, 2, 2), F(3)]), "Exponential": ("Exp", {}, ["X"]), "Gather": ("Gather", dict(axis=3), ["X", I64(1, 0, 3)]), "GatherElements": ("GatherElements", dict(axis=3), ["X", np.arange(32).reshape(1, 2, 4, 4) % 3]),
    "Hyperb_tan": ("Tanh", {}, ["X"]), "Leakyrelu": ("LeakyRelu", dict(alpha=0.25), ["X"]), "Logarithm": ("Log", {}, ["P"]), "Relu": ("Relu", {}, ["X"]), "Sigmoid": ("Sigmoid", {}, ["X"]), "Softmax": ("Softmax", dict(axis=1), ["V"]),
    "ReduceMax": ("ReduceMax", dict(axes=[2]), ["X"]), "ReduceMin": ("ReduceMin", dict(axes=[3]), ["X"]), "ReduceMean": ("ReduceMean", dict(axes=[1]), ["X"]), "ReduceProd": ("ReduceProd", dict(axes=[3]), ["X"]), "ReduceSum": ("ReduceSum", {}, ["X", I64(2)]),
    "ResizeNearest": ("Resize", dict(mode="nearest"), ["X", "", np.array([1, 1, 2, 2], np.float32)]), "ResizeLinear": ("Resize", dict(mode="linear"), ["X", "", np.array([1, 1, 2, 2], np.float32)]), "ResizeCubic": ("Resize", dict(mode="cubic"), ["X", "", np.array([1, 1, 2, 2], np.float32)]),
    "Tile": ("Tile", {}, ["X", I64(1, 2, 1, 2)]), "Transpose": ("Transpose", dict(perm=[0, 2, 3, 1]), ["X"]), "Gemm": ("Gemm", dict(transB=1), ["V", F(3, 6), F(3)]), "MatMul": ("MatMul", {}, ["V", F(6, 4)]), "Dense": None, "Flatten": None,
}


def fill(n):
    return (np.arange(n) % 5 + 1).astype(np.float64)


def probe(factory):
    """An implementation whose result is recognisable: 1 2 3 4 5 1 2 3 ..."""
    default = factory.implementations[None]

    def make(old, version):
        new = default(old, "6loops" if old.name == "Conv2D" else None)
        ref = new.forward_path_layer
        new.generate_inference_code_layer = lambda: f"    {{ int q; for (q = 0; q < {new.size}; q++) ctx->output_{new.path}[q] = q % 5 + 1; }}\n"
        new.forward_path_layer = lambda a: (lambda r: fill(r.size).reshape(r.shape).astype(r.dtype))(np.asarray(ref(a)))
        return new
    return make


@contextlib.contextmanager
def registry():
    """The registrations of the case are undone at its end."""
    from acetone_nnet.versioning.layer_factories import implemented
    saved = {k: (f, dict(f.implementations)) for k, f in implemented.items()}
    try:
        yield implemented
    finally:
        implemented.clear()
        for k, (f, i) in saved.items():
            f.implementations = dict(i)
            implemented[k] = f


def two(kind):
    """Two layers of the kind, on the input and on its image by another layer, and their sum."""
    op, at, ops = KINDS[kind]
    nodes, inits = [], {}
    rank2 = any(isinstance(o, str) and o == "V" for o in ops)
    shape = (1, 6) if rank2 else (1, 2, 4, 4)
    if kind == "Subtract":
        nodes.append(node("Mul", ["X", "X"], ["T"]))
    else:
        nodes.append(node("Sub", ["X", "k"], ["T"]))
        inits["k"] = F(*shape)
    if kind == "Logarithm":
        nodes += [node("Exp", ["X"], ["eX"]), node("Exp", ["T"], ["eT"])]
    for src, out in (("X", "A"), ("T", "B")):
        names = []
        for i, o in enumerate(ops):
            if isinstance(o, str):
                names.append("" if o == "" else src if o in "XV" else "e" + src)
            else:
                inits[f"c{i}"] = o
                names.append(f"c{i}")
        nodes.append(node(op, names, [out], **at))
    tail = ("Concat", dict(axis=1)) if kind in ("Add", ) else ("Add", {})
    nodes.append(node(tail[0], ["A", "B"], ["y"], **tail[1]))
    m = infer(onnx_model(nodes, [("X", shape)], [("y", ())], inits))
    import copy
    both = copy.deepcopy(m)
    for n in "AB":
        both.graph.output.append(next(v for v in both.graph.value_info if v.name == n))
    return m, both, shape, tail[0]


def chosen(layers, versions, kind):
    """What the rule says: the layer number first, then the kind, then the default."""
    out = {}
    for l in layers:
        if l.name == kind:
            out[l.original_name] = versions.get(l.idx, versions.get(kind))
    return out


def kind_case(kind, full):
    fails = []
    with registry() as implemented, scratch() as d:
        m, both, shape, tail = two(kind)
        n = int(np.prod(shape))
        X = np.stack([((np.arange(n) * a + b) % 9 - 4.0) / 2 for a, b in ((4, 1), (5, 3))]).astype(np.float32).reshape(2, 1, n)
        plain = make_generator(m, X)
        of = [l for l in plain.layers if l.name == kind and l.original_name in ("%s_A" % KINDS[kind][0], "%s_B" % KINDS[kind][0])]
        if len(of) != 2:
            return [("harness", f"{[(l.name, l.original_name) for l in plain.layers]}")]
        of.sort(key=lambda l: l.original_name)     # whatever the order of execution
        factory = implemented[kind]
        factory.register_implementation("probe", probe(factory))
        base = {k: ort_run(both, X, shape, out=k).astype(np.float64) for k in "AB"}
        native = [i for i in factory.list_implementations if i not in ("probe", "channels_last")]
        vals = ["absent", native[0], "probe"] if not full else ["absent", *native, "probe"]
        done = {}
        for name, ia, ib, order in itertools.product(vals, vals, vals, (0, 1)):
            v = {k: x for k, x in ((kind, name), (of[0].idx, ia), (of[1].idx, ib)) if x != "absent"}
            if order:
                v = dict(reversed(v.items()))
            if order and len(v) < 2:
                continue
            what = chosen(plain.layers, v, kind)
            count("assignments")
            try:
                g = make_generator(m, X, versions=dict(v))
            except Bad as b:
                fails.append((b.stage, f"{v}: {b.msg}"[:250]))
                continue
            parts = []
            for k, l in zip("AB", of):
                parts.append(np.tile(fill(base[k].shape[1]), (2, 1)) if what[l.original_name] == "probe" else base[k])
            want = np.concatenate(parts, 1) if tail == "Concat" else parts[0] + parts[1]
            try:
                P, _ = py_reference(g, d)
                r = mismatch(P, want, 1e-5, 1e-5, "python")
                if r:
                    fails.append(("py", f"{v}: {r}"))
                key = tuple(sorted((k, str(x)) for k, x in what.items()))
                o = d / f"g{len(done)}{order}{name}{ia}{ib}"
                gen_files(g, o)
                src = (o / "inference.c").read_bytes()
                if key in done:         # the same assignment written another way: the same program
                    if done[key] != src:
                        fails.append(("same", f"{v}: the program is not that of the same assignment"))
                else:
                    done[key] = src
                    C = run_c(compile_c(o, g.data_type), o, X, want.shape[1], g.data_type)
                    count("programs")
                    count("nontrivial", len(set(what.values())) > 1 or "probe" in what.values())
                    r = mismatch(C, want, 1e-5, 1e-5, "C")
                    if r:
                        fails.append(("c", f"{v}: {r}"))
            except Bad as b:
                fails.append((b.stage, f"{v}: {b.msg}"[:250]))
            if len(fails) > 4:
                return fails
        for v in ({kind: "nothing"}, {of[0].idx: "nothing"}, {kind: native[0], of[1].idx: "Probe"}, {kind: ""}):
            count("refused")
            try:
                make_generator(m, X, versions=v)
                fails.append(("accepted", f"{v}: accepted"))
            except Bad:
                pass
    return fails


CONVS = ("6loops", *(f"{a}_gemm_{t}" for a in ("std", "indirect") for t in ("nn", "nt", "tn", "tt")))


def mix_model(shape):
    I = {"w1": F(4, 2, 2, 3), "b1": F(4), "w2": F(4, 4, 3, 2), "b2": F(4), "w3": F(8, 4, 1, 1)}
    nodes = [node("Conv", ["X", "w1", "b1"], ["a"], kernel_shape=[2, 3], auto_pad="SAME_UPPER"), node("Relu", ["a"], ["r"])]
    if shape == "chain":
        nodes += [node("Conv", ["r", "w2", "b2"], ["b"], kernel_shape=[3, 2], pads=[1, 0, 1, 1]), node("Conv", ["b", "w3"], ["y"], kernel_shape=[1, 1], strides=[2, 2])]
    elif shape == "fork":
        nodes += [node("Conv", ["r", "w2", "b2"], ["b"], kernel_shape=[3, 2], auto_pad="SAME_LOWER"), node("Add", ["b", "r"], ["s"]), node("Conv", ["s", "w3"], ["y"], kernel_shape=[1, 1])]
    else:
        nodes += [node("Conv", ["r", "w2", "b2"], ["b"], kernel_shape=[3, 2], dilations=[2, 2], auto_pad="VALID"), node("Conv", ["r", "w3"], ["c"], kernel_shape=[1, 1]), node("Flatten", ["b"], ["fb"]), node("Flatten", ["c"], ["fc"]), node("Concat", ["fc", "fb"], ["y"], axis=1)]
    return infer(onnx_model(nodes, [("X", (1, 2, 5, 4))], [("y", ())], I))


def mix_case(shape, first, second, opt):
    """Implementations of the product mixed in one network."""
    fails = []
    m = mix_model(shape)
    X = (((np.arange(120) * 7 + 3) % 11) - 5).astype(np.float32).reshape(3, 1, 40)
    want = ort_run(m, X, (1, 2, 5, 4))
    convs = [l.idx for l in make_generator(m, X, optimization=opt).layers if l.name == "Conv2D"]
    if len(convs) != 3:
        return [("harness", f"{convs}")]
    for third in CONVS:
        forms = [{convs[0]: first, convs[1]: second, convs[2]: third}]
        if second == third:
            forms.append({"Conv2D": second, convs[0]: first})
        if first == "6loops":
            forms.append({convs[2]: third, convs[1]: second})
        src = None
        for v in forms:
            with scratch() as d:
                try:
                    g = make_generator(m, X, versions=dict(v), optimization=opt)
                    P, _ = py_reference(g, d)
                    r = mismatch(P, want, 0, 0, "python")
                    if r:
                        fails.append(("py", f"{v}: {r}"))
                    gen_files(g, d)
                    s = (d / "inference.c").read_bytes()
                    if src is not None:
                        if s != src:
                            fails.append(("same", f"{v}: the program is not that of the same assignment"))
                        continue
                    src = s
                    C = run_c(compile_c(d, g.data_type), d, X, want.shape[1], g.data_type)
                    count("programs")
                    count("nontrivial")
                    r = mismatch(C, want, 0, 0, "C")
                    if r:
                        fails.append(("c", f"{v}: {r}"))
                except Bad as b:
                    fails.append((b.stage, f"{v}: {b.msg}"[:250]))
        if len(fails) > 4:
            break
    return fails


def deep_case(n, at, opt):
    """A chain of convolutions with layer numbers of one to three digits: every layer given the recognisable implementation alone, then against a rule for the kind and for another layer."""
    fails = []
    rng = np.random.default_rng(n)
    Ws = [np.sign(rng.random((2, 2)) - .5) * np.eye(2)[rng.permutation(2)] for _ in range(n)]
    I = {f"w{j}": w.astype(np.float32).reshape(2, 2, 1, 1) for j, w in enumerate(Ws)}
    I |= {f"b{j}": ints((2,), j + 1, 2, 5, 2) for j in range(n)}
    names = ["X", *(f"t{j}" for j in range(n - 1)), "y"]
    m = infer(onnx_model([node("Conv", [names[j], f"w{j}", f"b{j}"], [names[j + 1]], kernel_shape=[1, 1]) for j in range(n)], [("X", (1, 2, 2, 2))], [("y", ())], I))
    X = (((np.arange(16) * 7 + 3) % 11) - 5).astype(np.float32).reshape(2, 1, 8)

    def want(v):
        y = X.reshape(2, 2, 4).astype(float)
        for j in range(n):
            if v[j] == "probe":
                y = np.tile(fill(8).reshape(1, 2, 4), (2, 1, 1))
            else:
                y = np.einsum("oc,ncx->nox", Ws[j], y) + I[f"b{j}"].reshape(1, 2, 1)
        return y.reshape(2, 8)
    with registry() as implemented, scratch() as d:
        plain = make_generator(m, X, optimization=opt)
        idx = [l.idx for l in plain.layers if l.name == "Conv2D"]
        if len(idx) != n:
            return [("harness", f"{idx}")]
        implemented["Conv2D"].register_implementation("probe", probe(implemented["Conv2D"]))
        other = (at * 10 + 1) % n
        forms = [{idx[at]: "probe"}, {"Conv2D": "std_gemm_nn", idx[at]: "probe"}, {idx[other]: "std_gemm_tn", "Conv2D": "probe", idx[at]: "indirect_gemm_nt"},
                 {i: CONVS[k % len(CONVS)] for k, i in reversed(list(enumerate(idx))) if k != at} | {idx[at]: "probe"}]
        for v in forms:
            asked = [v.get(i, v.get("Conv2D")) for i in idx]
            try:
                g = make_generator(m, X, versions=dict(v), optimization=opt)
                P, _ = py_reference(g, d)
                r = mismatch(P, want(asked), 0, 0, "python")
                if r:
                    fails.append(("py", f"{v}: {r}"[:250]))
                o = d / f"g{forms.index(v)}"
                gen_files(g, o)
                C = run_c(compile_c(o, g.data_type), o, X, 8, g.data_type)
                count("programs")
                count("assignments")
                count("nontrivial")
                r = mismatch(C, want(asked), 0, 0, "C")
                if r:
                    fails.append(("c", f"{v}: {r}"[:250]))
            except Bad as b:
                fails.append((b.stage, f"{v}: {b.msg}"[:250]))
    return fails


def factory_case(depth, prefix):
    """Sequences of registrations and requests on a registry against a dictionary."""
    from acetone_nnet.versioning import versioning as V
    from acetone_nnet.versioning.layer_factories import LayerFactory
    fails = []
    ops = [("reg", n, k) for n, k in ((None, 1), (None, 2), ("x", 1), ("x", 2), ("a", 3), ("", 4))] + [("call", n) for n in (None, "x", "a", "", "none")] + [("factory", n) for n in ("New", "Add")]
    for seq in itertools.product(ops, repeat=depth - len(prefix)):
        with registry() as implemented:
            f, model, extra = LayerFactory("New"), {}, {}
            first = {k: set(v) for k, v in V.list_all_implementations().items()}
            count("sequences")
            for step in (*[ops[p] for p in prefix], *seq):
                try:
                    if step[0] == "reg":
                        f.register_implementation(step[1], lambda l, v, k=step[2]: (k, l, v))
                        got = "ok"
                    elif step[0] == "call":
                        got = f(("layer",), step[1])
                    else:
                        V.register_factory(step[1], f)
                        got = "ok"
                except KeyError:
                    got = "refused"
                if step[0] == "reg":
                    want = "refused" if step[1] in model else "ok"
                    model.setdefault(step[1], step[2])
                elif step[0] == "call":
                    want = (model[step[1]], ("layer",), step[1]) if step[1] in model else "refused"
                else:
                    want = "refused" if step[1] in first or step[1] in extra else "ok"
                    if want == "ok":
                        extra[step[1]] = f
                listed = {k: list(v) for k, v in V.list_all_implementations().items()}
                names = {n for n in model if n is not None}
                if got != want:
                    fails.append(("answer", f"{seq}: {step} gives {got}, not {want}"))
                elif sorted(f.list_implementations) != sorted(names):
                    fails.append(("list", f"{seq}: lists {f.list_implementations}, not {names}"))
                elif set(listed) != set(first) | set(extra) or any(set(listed[k]) != first[k] for k in first) or any(sorted(listed[k]) != sorted(names) for k in extra):
                    fails.append(("list", f"{seq}: list of all implementations"))
                elif extra and implemented["New"] is not f:
                    fails.append(("factory", f"{seq}: another factory"))
                if len(fails) > 3:
                    return fails
                count("nontrivial", want != "ok")
    return fails


# -------------------------------------------------------------------------------- generation functions

DEFAULT = {"Main": ("main.c", "test_dataset.h"), "Inference": ("inference.c", "inference.h", "global_vars.c", "parameters.c", "train_hook.c"), "Makefile": ("Makefile",), "TestValues": ("test_dataset.c",)}
FORMS = ("absent", "none", "one", "two", "pair")


def small(**kw):
    I = {"w": F(2, 2, 2, 2), "b": F(2)}
    m = infer(onnx_model([node("Conv", ["X", "w", "b"], ["a"], kernel_shape=[2, 2]), node("Relu", ["a"], ["y"])], [("X", (1, 2, 3, 3))], [("y", ())], I))
    X = (((np.arange(36) * 7 + 3) % 11) - 5).astype(np.float32).reshape(2, 1, 18)
    return make_generator(m, X, **kw)


def writer(name, text, log, gen):
    def f(g, path):
        log.append((name, text, g is gen[0]))
        with (path / name).open("a+") as o:
            o.write(text)
    return f


def tree(d):
    return {p.name: p.read_bytes() for p in sorted(d.iterdir())}


def functions(form, key, log, gen):
    """-> value of the entry, files it has to write."""
    w = lambda n, t: (n, writer(n, t, log, gen))
    if form == "none":
        return [], {}
    if form == "one":
        return [w(f"{key}_1.c", key)], {f"{key}_1.c": key}
    if form == "two":
        return [w(f"{key}_1.c", key), w(f"{key}_2.h", "2" + key)], {f"{key}_1.c": key, f"{key}_2.h": "2" + key}
    return (f"{key}_1.c", [w(f"{key}_1.c", key)[1], w(f"{key}_1.c", "+")[1]]), {f"{key}_1.c": key + "+"}


def make_lines(text):
    """Variables of a Makefile as make understands them."""
    out = {}
    for l in text.splitlines():
        if "=" in l and not l.startswith("\t"):
            k, v = l.split("+=" if "+=" in l else "=", 1)
            k = k.strip()
            if "+=" in l:
                out.setdefault(k, []).append(v.strip())
            else:
                out[k] = [v.strip()] if v.strip() else []
    return out


def files_case(forms, ext, binary):
    fails = []
    opt = dict(external_input=ext, bin_dataset=binary)
    with scratch() as d:
        g0 = small(**opt)
        gen_files(g0, d / "plain")
        plain = tree(d / "plain")
        for extra in ("absent", "none", "one", "two", "pair"):
            log, gen, custom, mine = [], [None], {}, {}
            for key, form in (*zip(DEFAULT, forms), ("Extra", extra)):
                if form != "absent":
                    custom[key], f = functions(form, key, log, gen)
                    mine.update(f)
            before = {k: list(v) if isinstance(v, list) else v for k, v in custom.items()}
            try:
                gen[0] = g = small(custom_generation_functions=custom, **opt)
            except Bad as b:
                fails.append((b.stage, f"{forms} {extra}: {b.msg}"[:200]))
                continue
            o = d / f"o{extra}"
            gen_files(g, o)
            got = tree(o)
            want = {n: t.encode() for n, t in mine.items()}
            for key, form in zip(DEFAULT, forms):
                if form == "absent":
                    want.update({n: plain[n] for n in plain if n in DEFAULT[key] or (n.endswith(".dat") and {"p": "Inference", "t": "TestValues"}[n[0]] == key)})
            count("generations")
            count("nontrivial", got != plain)
            if custom != before:
                fails.append(("caller", f"{forms} {extra}: the dictionary of the caller is changed"))
            if set(got) != set(want):
                fails.append(("files", f"{forms} {extra}: files {sorted(set(got) ^ set(want))} differ"))
                continue
            for n in got:
                if n != "Makefile" and got[n] != want[n]:
                    fails.append(("content", f"{forms} {extra}: {n}"))
            if not all(l[2] for l in log):
                fails.append(("called", f"{forms} {extra}: called with another generator"))
            if "Makefile" in got:
                v, p = make_lines(got["Makefile"].decode()), make_lines(plain["Makefile"].decode())
                gone = {f for key, form in zip(DEFAULT, forms) if form != "absent" for f in DEFAULT[key]}
                for var, end in (("SRC", ".c"), ("HEADERS", ".h")):
                    w = [f for f in p[var] if f not in gone] + [n for n in mine if n.endswith(end)]
                    if sorted(v[var]) != sorted(w):
                        fails.append(("makefile", f"{forms} {extra}: {var} is {v[var]}, not {w}"))
            # a file in the way: nothing is written
            for n in [n for n in want if not n.endswith(".dat")][:: 3]:
                e = d / "occupied"
                e.mkdir()
                (e / n).write_text("mine")
                try:
                    g.generate_c_files(e)
                    fails.append(("overwrite", f"{forms} {extra}: {n} existed"))
                except FileExistsError:
                    if tree(e) != {n: b"mine"}:
                        fails.append(("overwrite", f"{forms} {extra}: files are written although {n} existed"))
                for p in e.iterdir():
                    p.unlink()
                e.rmdir()
                count("occupied")
            for p in o.iterdir():
                p.unlink()
            o.rmdir()
            if len(fails) > 4:
                return fails
    return fails


def same_case(keys, binary):
    """The functions of the generator given as the user's: the same files, the same program."""
    with scratch() as d:
        gen_files(small(bin_dataset=binary), d / "plain")
        plain = tree(d / "plain")
        G = {"Main": [("main.c", lambda g, p: g.generate_main_file(p)), ("test_dataset.h", lambda g, p: g.generate_test_dataset_header_file(p))],
             "Inference": [("inference.c", lambda g, p: g.generate_function_source_file(p)), ("inference.h", lambda g, p: g.generate_function_header_file(p)), ("global_vars.c", lambda g, p: g.generate_globalvars_file(p)),
                           ("parameters.c", lambda g, p: g.generate_bin_parameter_file(p) if g.bin_dataset else g.generate_parameter_file(p)), ("train_hook.c", lambda g, p: g.generate_train_hook_file(p))],
             "Makefile": [("Makefile", lambda g, p: g.generate_makefile(p))], "TestValues": [("test_dataset.c", lambda g, p: g.generate_test_dataset_value_file(p))]}
        custom = {}
        order = []
        for k in keys:
            # the Makefile of a binary data set needs the symbols the parameters define: after Inference
            custom[k] = G[k]
            order.append(k)
        g = small(custom_generation_functions=custom, bin_dataset=binary)
        gen_files(g, d / "c")
        got = tree(d / "c")
        count("generations")
        count("nontrivial")
        if set(got) != set(plain):
            return [("files", f"{sorted(set(got) ^ set(plain))}")]
        bad = [n for n in got if n != "Makefile" and got[n] != plain[n]]
        if bad:
            return [("content", f"{bad}")]
        r = []
        for x in ("plain", "c"):
            q = subprocess.run(["make", "-s", "-C", str(d / x), "inference"], capture_output=True, text=True, timeout=120)
            if q.returncode:
                return [("make", q.stderr[-200:])]
            subprocess.run([str(d / x / "inference"), str(d / x / "out.txt")], capture_output=True, timeout=60)
            r.append((d / x / "out.txt").read_text())
        return [("result", "not the same")] if r[0] != r[1] or not r[0] else []


# -------------------------------------------------------------------------------- Makefile properties

FLAGS = {"absent": None, "none": [], "list": ["-O1", "-w"], "string": "-O1 -w", "quotes": ["-w", "-DA='\"x y\"'", "-DB='<stdio.h>'", "-DC='1&&2'"], "paths": ["-w", "-I .", "-Isome/dir"]}
LINK = {"absent": None, "none": [], "list": ["-lm", "-Wl,-z,now"], "string": "-lm", "quotes": ["-lm", "-Wl,--defsym='a b'=0"][:1]}


def make_case(compiler, cflags, ldflags, target):
    import shlex
    fails = []
    with scratch() as d:
        rec = d / "cc wrapper".replace(" ", "_")
        rec.write_text(f"#!/bin/bash\nprintf '%s\\0' \"$@\" >> {d}/argv; printf '\\n' >> {d}/argv\nfor a; do case $a in -o) n=1;; *) if [ \"$n\" = 1 ]; then : > \"$a\"; n=0; fi;; esac; done\nexit 0\n")
        rec.chmod(0o755)
        props = {k: v for k, v in (("compiler", None if compiler == "absent" else f"{rec} --first 'a<b'" if compiler == "quotes" else str(rec)), ("compiler_flags", FLAGS[cflags]), ("linker_flags", LINK[ldflags])) if v is not None}
        given = json.dumps(props)
        here = os.getcwd()
        kw = {}
        if target:
            (d / "AVX512VNNI.json").write_text(json.dumps({"name": "T", **target, "quantization": {"dtype": "short", "temp_dtype": "int", "pydtype": "int16", "temp_pydtype": "int32", "layers": {}}}))
            kw["target"] = "AVX512VNNI"
        texts = []
        for run in range(2):
            os.chdir(d)
            try:
                g = small(makefile_properties=props, **kw) if not target else quantised(props, **kw)
            finally:
                os.chdir(here)
            for again in range(2):
                o = d / f"o{run}{again}"
                gen_files(g, o)
                texts.append((o / "Makefile").read_text())
        count("generations", 4)
        count("nontrivial", bool(props))
        if json.dumps(props) != given:
            fails.append(("caller", f"the properties of the caller became {json.dumps(props)[:150]}"))
        if len(set(texts)) != 1:
            fails.append(("again", "the Makefile of a second generation differs"))
        cc = (target or {}).get("compiler") or props.get("compiler", "gcc")
        cc = cc.replace("@", str(rec))
        want_c = flat(props.get("compiler_flags", ["-g", "-w"])) + flat((target or {}).get("cflags", []))
        want_l = flat(props.get("linker_flags", ["-lm"])) + flat((target or {}).get("ldflags", []))
        env = {**os.environ, "PATH": f"{d}/bin:{os.environ['PATH']}"}
        (d / "bin").mkdir()
        for n in ("gcc", "cc"):                      # whatever compiler the Makefile calls, the arguments are recorded
            (d / "bin" / n).symlink_to(rec)
        r = subprocess.run(["make", "-s", "-C", str(d / "o00"), "inference"], capture_output=True, text=True, timeout=60, env=env)
        cmds = [l.split("\0")[:-1] for l in (d / "argv").read_text().split("\n") if l] if (d / "argv").exists() else []
        if r.returncode or not cmds:
            return [*fails, ("make", f"exit {r.returncode} {r.stderr[-200:]}")]
        first = shlex.split(cc)[1:]
        for c in cmds:
            if c[:len(first)] != first:
                fails.append(("compiler", f"{c[:3]} instead of {first}"))
            rest = c[len(first):]
            if rest[:len(want_c)] != want_c:
                fails.append(("flags", f"compiler flags {rest[:len(want_c)]} instead of {want_c}"))
        if want_l and cmds[-1][-len(want_l):] != want_l:
            fails.append(("flags", f"linker flags {cmds[-1][-len(want_l):]} instead of {want_l}"))
        linked = sorted(a for a in cmds[-1] if a.endswith(".o"))
        if linked != sorted(p.name[:-2] + ".o" for p in (d / "o00").glob("*.c")):
            fails.append(("objects", f"links {linked}"))
    return fails[:4]


def flat(v):
    import shlex
    return [a for f in ([v] if isinstance(v, str) else v) for a in shlex.split(f)]


def quantised(props, **kw):
    m = infer(onnx_model([node("Relu", ["X"], ["y"])], [("X", (1, 6))], [("y", ())], {}))
    return make_generator(m, np.arange(12, dtype=np.int16).reshape(2, 6), makefile_properties=props, **kw)


def main():
    acx.import_target()
    c = acx.Check("C24", rule="one case per kind of layer, mix of convolutions, prefix of registrations, set of replaced functions and set of Makefile properties; non-trivial when something else than the default is asked for")
    q = []
    for k, v in KINDS.items():
        if v:
            q.append((f"kind {k}", "kind", dict(kind=k, full=c.thorough and k != "Conv2D")))
    for s in ("chain", "fork", "join"):
        for a, b in itertools.product(CONVS, CONVS):
            if c.thorough or s == "chain" or (CONVS.index(a) * 3 + CONVS.index(b)) % 5 == 0:
                q.append((f"mix {s},{a},{b}", "mix", dict(shape=s, first=a, second=b, opt=False)))
            if c.thorough or (s != "chain" and (CONVS.index(a) + CONVS.index(b) * 3) % 7 == 0):
                q.append((f"mix {s},{a},{b},optimized", "mix", dict(shape=s, first=a, second=b, opt=True)))
    for n, ats in ((13, range(13)), (104, (0, 1, 9, 10, 11, 98, 99, 100, 101, 103))):
        q += [(f"deep {n},{at},opt={o}", "deep", dict(n=n, at=at, opt=o)) for at in ats for o in (False, True) if n < 100 or not o]
    for p in range(13):
        if c.thorough:
            q += [(f"registry {p} {r}", "factory", dict(depth=5, prefix=(p, r))) for r in range(13)]
        else:
            q.append((f"registry {p}", "factory", dict(depth=4, prefix=(p,))))
    for f in itertools.product(FORMS, repeat=4):
        for ext, binary in ((False, False), (True, False), (False, True), (True, True)):
            if c.thorough or (ext, binary) == (False, False) or f.count("absent") >= 2:
                q.append((f"files {'/'.join(f)},external={ext},binary={binary}", "files", dict(forms=f, ext=ext, binary=binary)))
    keys = tuple(DEFAULT)
    for n in range(1, 5):
        for k in itertools.permutations(keys, n):
            q += [(f"same {'/'.join(k)},binary={b}", "same", dict(keys=k, binary=b)) for b in (False, True)]
    T = (None, {"cflags": "-O1 -DT=1", "compiler": "@ --target"}, {"ldflags": "-lm -lc"}, {"cflags": "-O1", "ldflags": "-lc"})
    for a, b, l, (i, t) in itertools.product(("absent", "given", "quotes"), FLAGS, LINK, enumerate(T)):
        if t and "compiler" in t and "@" in t["compiler"]:
            t = {**t, "compiler": "gcc --target"}
        q.append((f"make compiler={a},cflags={b},ldflags={l},target={i}", "make", dict(compiler=a, cflags=b, ldflags=l, target=t)))
    fns = {"kind": kind_case, "mix": mix_case, "deep": deep_case, "factory": factory_case, "files": files_case, "same": same_case, "make": make_case}
    c.run([(n, dict(what=w, args=a)) for n, w, a in q], lambda what, args: fns[what](**args))
    c.assumptions = ["onnxruntime 1.18.1 computes the networks of the default implementations correctly"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
