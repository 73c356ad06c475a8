"""C15: generation is a function of the network and the options: complete, deterministic, independent of what was done before, and it never touches existing files.

Every history of up to `depth` operations (generate into a new directory, into a used directory, Python inference, a new generator from the same objects) is executed; every file of the
project is put in the way in turn; every file operation of a generation is made to fail in turn."""
import hashlib
import itertools
import json
import os
import subprocess
import sys
from pathlib import Path

import numpy as np

import acx
from acx import Bad, count, make_generator, node, onnx_model, scratch
from C11 import producer
from models import infer
from nets import NETS

MARK = b"someone else's file\n"


def network(net, root):
    """-> model or path given to the generator, its content (to notice a change), inputs"""
    if net == "torch":
        from C17 import torch_inputs, torch_net
        import torch
        torch.set_num_threads(1)
        shp = (2, 5, 4)
        X = torch_inputs(shp)
        prog = torch.export.export(torch_net(("conv3", "bn", "relu", "pool", "res"), "lin", shp, "float"), (torch.tensor(X[:1], dtype=torch.float32),))
        return prog, lambda: b"".join(v.detach().numpy().tobytes() for _, v in sorted(prog.state_dict.items())) + str(prog.graph).encode(), X.astype(np.float32).reshape(len(X), 1, -1)[:3]
    if net == "json":
        import jsonnet
        n = jsonnet.build("skip", "channels_last", "float32")
        n.dump(root / "net.json")
        return str(root / "net.json"), (root / "net.json").read_bytes, ((np.arange(3 * int(np.prod(n.shape[0]))) * 5) % 13 - 6.0).astype(np.float32).reshape(3, 1, -1)
    if net == "nnet":
        import nnet
        W, B = nnet.weights((3, 4, 2))
        nnet.write(root / "net.nnet", (3, 4, 2), W, B, [-2.0] * 3, [2.0] * 3, [0.5, 0.25, -1.0, 3.0], [2.0, 4.0, 0.5, 1.5])
        return root / "net.nnet", (root / "net.nnet").read_bytes, np.array([[1, -3, 0.5], [0, 2, 5], [-1, -1, 1]], np.float32).reshape(3, 1, 3)
    m, X = onnx_network(net)
    return m, m.SerializeToString, X


def onnx_network(net):
    I = {}
    if net in NETS:
        m, shape = NETS[net]()
        n = int(np.prod(shape))
        return m, np.sin(np.arange(3 * n) * .7).astype(np.float32).reshape(3, 1, n)
    if net == "int":         # for the targets: no parameters, so no format of them
        m = infer(onnx_model([node("Relu", ["X"], ["y"]), node("Max", ["y", "X"], ["z"])], [("X", (1, 1, 2, 3))], [("z", ())], I, opset=13))
        return m, (np.arange(18) * 7 % 31 - 15).astype(np.int16).reshape(3, 1, 2, 3)
    if net == "chain":
        n1, shp = producer("conv", I)
        ch = infer(onnx_model(n1, [("X", shp)], [("y", ())], I, opset=13)).graph.output[0].type.tensor_type.shape.dim[1].dim_value
        I.update({k: np.full(ch, v, np.float32) for k, v in (("gamma", 1), ("beta", 2), ("mean", 0.5), ("var", 4))})
        nodes = n1 + [node("BatchNormalization", ["y", "gamma", "beta", "mean", "var"], ["z"]), node("Relu", ["z"], ["a"]), node("Add", ["a", "a"], ["p"]),
                      node("LeakyRelu", ["a"], ["q"], alpha=2.0), node("Sub", ["p", "q"], ["o"])]
        out = "o"
    else:
        nodes, shp = producer(net, I)
        out = "y"
    m = infer(onnx_model(nodes, [("X", shp)], [(out, ())], I, opset=13))
    X = ((np.arange(3 * int(np.prod(shp))) * 5) % 13 - 6.0).astype(np.float32).reshape(3, *shp[1:])
    return m, X


def note(generator, path):
    with (path / "notes.md").open("a+") as f:
        f.write(generator.function_name)
    with (path / "main.c").open("a+") as f:
        f.write("int main(void) { return 0; }")


OPTIONS = {"plain": {}, "opt": {"optimization": True}, "bin": {"bin_dataset": True}, "dec": {"to_hex": False}, "bindec": {"bin_dataset": True, "to_hex": False},
           "last": {"gen_data_format": "channels_last", "versions": {"Conv2D": "direct_block"}}, "gemm": {"versions": {"Conv2D": "std_gemm_nn"}}, "loops": {"versions": {"Conv2D": "6loops"}},
           "indirect": {"versions": {"Conv2D": "indirect_gemm_nn"}}, "verbose": {"verbose": True}, "flags": {"makefile_properties": {"compiler_flags": ["-O2"], "linker_flags": ["-lm"]}},
           "ext": {"external_input": True}, "page": {"target_page_size": 64}, "norm": {"normalize": True}, "rand": {}, "text": {}, "debug": {"debug_mode": "onnx"}, "time": {"debug_mode": "time"},
           "avx": {"target": "AVX512VNNI"}, "avxbin": {"target": "AVX512VNNI", "bin_dataset": True}, "orin": {"target": "orin-single-core"},
           "custom": {"custom_generation_functions": {"Notes": [("notes.md", note)], "Main": [("main.c", note)]}}}


TYPE = {"AVX512VNNI": {"dtype": "short", "temp_dtype": "int", "pydtype": "int16", "temp_pydtype": "int32", "layers": {}}}
TYPE["orin-single-core"] = TYPE["AVX512VNNI"]


MORE = (("torch", "plain"), ("torch", "bin"), ("json", "plain"), ("json", "opt"), ("nnet", "plain"), ("nnet", "norm"), ("conv", "rand"), ("conv", "text"), ("conv", "debug"), ("conv", "time"), ("conv", "custom"),
        ("int", "avx"), ("int", "avxbin"), ("int", "orin"), ("int", "plain"))


def tree(d):
    """Files, without the name of the directory: the debug mode writes it in the code."""
    return {str(p.relative_to(d)): p.read_bytes().replace(str(d).encode(), b"DIRECTORY") for p in sorted(Path(d).rglob("*")) if p.is_file()}


class World:
    def __init__(self, root, net, opt):
        self.root, self.n = root, 0
        self.model, self.content, self.X = network(net, root)
        import copy
        self.opt, self.kw = opt, copy.deepcopy(OPTIONS[opt])
        if opt == "text":
            self.data = root / "data.txt"
            self.data.write_text("".join("[" + ", ".join(repr(float(v)) for v in x.ravel()) + "]\n" for x in self.X))
        if "target" in self.kw:
            (root / f"{self.kw['target']}.json").write_text(json.dumps({"name": "T", "cflags": "-O1", "quantization": TYPE[self.kw["target"]]}))
        self.before = self.state()
        self.gen = self.make()
        self.used = None

    def state(self):
        return self.content(), self.X.tobytes() + (self.data.read_bytes() if self.opt == "text" else b""), repr(self.kw)

    def make(self):
        from acetone_nnet import CodeGenerator
        here = os.getcwd()
        os.chdir(self.root)                       # the configuration of a target is read from the working directory
        try:
            if self.kw.get("external_input") or self.opt == "rand":
                return CodeGenerator(self.model, nb_tests=3, **self.kw)
            if self.opt == "text":
                return CodeGenerator(self.model, nb_tests=3, test_dataset=self.data, **self.kw)
            return make_generator(self.model, self.X, **self.kw)
        finally:
            os.chdir(here)

    def fresh(self):
        self.n += 1
        d = self.root / f"d{self.n}"
        d.mkdir()
        return d

    def infer(self, g, d):
        g.compute_inference(str(d), *([self.X] if self.kw.get("external_input") else []))
        return (d / "output_python.txt").read_bytes()


def diff(a, b):
    if a.keys() != b.keys():
        return f"files {sorted(a)} instead of {sorted(b)}"
    k = [k for k in a if a[k] != b[k]]
    return f"{k[0]} differs" if k else None


def reference(net, opt):
    """Files and Python result of a generator used once."""
    with scratch() as r:
        w = World(r, net, opt)
        d = w.fresh()
        w.gen.generate_c_files(d)
        w2 = World(r / "b", net, opt) if (r / "b").mkdir() is None else None
        return tree(d), w2.infer(w2.gen, w2.fresh())


def step(w, op, files, out):
    """Applies one operation; returns a difference or None."""
    if op == "G":
        d = w.fresh()
        w.gen.generate_c_files(d)
        w.used = d
        e = diff(tree(d), files)
        return e and f"generation: {e}"
    if op == "R":
        if w.used is None:
            w.used = w.fresh()
            (w.used / "Makefile").write_bytes(MARK)
        was = tree(w.used)
        try:
            w.gen.generate_c_files(w.used)
        except FileExistsError:
            e = diff(tree(w.used), was)
            return e and f"refused generation: {e}"
        return "generation into a used directory is not refused"
    if op == "I":
        got = w.infer(w.gen, w.fresh())
        return None if got == out else "Python inference gives another result"
    if op == "N":
        w.gen = w.make()
        return None
    raise AssertionError(op)


def histories(net, opt, depth):
    files, out = reference(net, opt)
    fails = []
    for h in itertools.product("GRIN", repeat=depth):   # prefixes are covered by the longer histories
        with scratch() as r:
            w = World(r, net, opt)
            for k, op in enumerate(h):
                count("transitions")
                count("states")
                try:
                    e = step(w, op, files, out)
                except Exception as x:
                    e = f"{type(x).__name__}: {x}"
                now = w.state()
                if e is None and now != w.before:
                    e = "the caller's " + ["model", "dataset", "options"][[a == b for a, b in zip(now, w.before)].index(False)] + " is changed"
                if e:
                    fails.append(("history", f"{net} {opt}: after {''.join(h[:k + 1])}: {e}"))
                    break
            count("traces")
        if len(fails) > 3:
            break
    return fails


EXPECT = {"plain": {"Makefile", "inference.c", "inference.h", "global_vars.c", "parameters.c", "main.c", "train_hook.c", "test_dataset.c", "test_dataset.h"}}
EXPECT["bin"] = EXPECT["plain"] - {"parameters.c", "test_dataset.c"} | {"parameters.dat", "test_dataset.dat"}
EXPECT["ext"] = EXPECT["plain"] - {"test_dataset.c"}
EXPECT["avx"] = EXPECT["orin"] = EXPECT["plain"] | {"target.c", "target.h"}
EXPECT["avxbin"] = EXPECT["bin"] | {"target.c", "target.h"}
EXPECT["custom"] = EXPECT["plain"] - {"test_dataset.h"} | {"notes.md"}


def occupied(net, opt):
    """Every file of the project in turn is in the way; a directory is too; unrelated files are not."""
    files, _ = reference(net, opt)
    fails = []
    want = EXPECT[opt if opt in EXPECT else "bin" if opt.startswith("bin") else "plain"]
    if set(files) != want:
        fails.append(("files", f"{net} {opt}: generates {sorted(files)}"))
    for f in [*sorted(files), "notes.txt", "inference.c.bak"]:
        with scratch() as r:
            w = World(r, net, opt)
            d = w.fresh()
            (d / f).write_bytes(MARK)
            count("traces")
            try:
                w.gen.generate_c_files(d)
                done = True
            except FileExistsError:
                done = False
            t = tree(d)
            if f in files:
                if done or t != {f: MARK}:
                    fails.append(("overwrite", f"{net} {opt}: {f} exists: " + ("generation goes on" if done else "other files are written") + ("" if t[f] == MARK else ", and its content is lost")))
            elif not done or t.pop(f) != MARK or t != files:
                fails.append(("overwrite", f"{net} {opt}: unrelated {f} exists: {'not generated' if not done else 'other result'}"))
    # a directory that does not exist yet, given as a string or a path, is created
    for mk in (str, Path):
        with scratch() as r:
            w = World(r, net, opt)
            w.gen.generate_c_files(mk(r / "a" / "b"))
            if tree(r / "a" / "b") != files:
                fails.append(("files", f"{net} {opt}: another result in a new directory"))
    return fails


class Disk(OSError):
    pass


def faults(net, opt):
    """The k-th opening of a file for writing, or the k-th write, fails: generation fails, leaves what existed, and a second generation elsewhere gives the project."""
    files, out = reference(net, opt)
    fails = []
    real = Path.open
    for kind in ("open", "write"):
        for k in itertools.count():
            n = [0]

            def opener(self, mode="r", *a, **kw):
                f = real(self, mode, *a, **kw) if not (kind == "open" and "r" not in mode and n[0] == k) else None
                if "r" in mode:
                    return f
                if kind == "open":
                    n[0] += 1
                    if f is None:
                        raise Disk("no space")
                    return f
                w = f.write

                def write(x):
                    n[0] += 1
                    if n[0] - 1 == k:
                        raise Disk("no space")
                    return w(x)
                try:
                    f.write = write
                except AttributeError:
                    pass
                return f
            with scratch() as r:
                w = World(r, net, opt)
                d = w.fresh()
                (d / "keep").write_bytes(MARK)
                raised = None
                Path.open = opener
                try:
                    w.gen.generate_c_files(d)
                except Exception as e:
                    raised = e
                finally:
                    Path.open = real
                count("traces")
                count("fault_points")
                if n[0] <= k:
                    break                              # no such operation: the last point is done
                if raised is None:
                    fails.append(("fault", f"{net} {opt}: {kind} {k} fails and generation reports success"))
                if (d / "keep").read_bytes() != MARK:
                    fails.append(("fault", f"{net} {opt}: {kind} {k} fails and another file is changed"))
                try:
                    e = step(w, "G", files, out) or step(w, "I", files, out)
                except Exception as x:
                    e = f"{type(x).__name__}: {x}"
                if e:
                    fails.append(("fault", f"{net} {opt}: after {kind} {k} failed: {e}"))
                # and the interrupted directory is never silently completed into something else
                try:
                    w.gen.generate_c_files(d)
                    t = tree(d)
                    t.pop("keep")
                    e = diff(t, files)
                    if e:
                        fails.append(("fault", f"{net} {opt}: {kind} {k} failed, then generated again: {e}"))
                except FileExistsError:
                    pass
            if len(fails) > 3:
                break
    return fails


def hashes(net, opt):
    with scratch() as r:
        w = World(r, net, opt)
        d = w.fresh()
        w.gen.generate_c_files(d)
        return {k: hashlib.sha256(v).hexdigest() for k, v in tree(d).items()}, hashlib.sha256(w.infer(w.gen, w.fresh())).hexdigest()


def processes(seed, todo):
    """The same project in a process with another hash seed."""
    code = "import sys; sys.path[:0] = [%r, %r]; import acx; acx.import_target(); import C15, json; print('\\n@' + json.dumps([C15.hashes(n, o) for n, o in %r]))" % (
        str(acx.LIB), str(acx.VERIF / "checks"), todo)
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=300, env={**os.environ, "PYTHONHASHSEED": str(seed)})
    if r.returncode:
        raise Bad("run", r.stderr[-200:])
    got = json.loads(r.stdout.rsplit("@", 1)[1])
    fails = []
    for (n, o), (f, i) in zip(todo, got):
        a, b = hashes(n, o)
        count("traces")
        if (f, i) != (a, b):
            fails.append(("process", f"{n} {o}: another process (hash seed {seed}) gives another {'result' if f == a else [k for k in a if f.get(k) != a[k]]}"))
    return fails


def case(kind, **kw):
    return {"histories": histories, "occupied": occupied, "faults": faults, "processes": processes}[kind](**kw)


def main():
    acx.import_target()
    c = acx.Check("C15", level="model_checking", rule="a state is a generator with its directories after a history of operations, a transition one operation, a trace one complete history, one file in the "
                  "way or one failing file operation; all histories of the stated depth over four operations are executed")
    depth = 6 if c.thorough else 4
    base = [o for o in OPTIONS if o not in {o for _, o in MORE} - {"plain", "bin", "opt"}]
    nets = ("conv", "chain", "concat", "mm0", "pad")
    q = [(f"histories,{n},{o}", dict(kind="histories", net=n, opt=o, depth=depth)) for n in nets for o in base if n == "chain" and o != "last" or o in ("plain", "bin") or (n == "conv" and o in ("last", "indirect"))]
    q += [(f"occupied,{n},{o}", dict(kind="occupied", net=n, opt=o)) for n in ("conv", "pad") for o in base if n == "conv" or o != "last"]
    q += [(f"faults,{n},{o}", dict(kind="faults", net=n, opt=o)) for n in ("conv", "pad") for o in base if n == "conv" or o != "last"]
    q += [(f"histories,{n},{o}", dict(kind="histories", net=n, opt=o, depth=3)) for n in NETS for o in ("plain", "opt", "bin")]
    todo = [(n, o) for n in (*nets, *NETS) for o in ("plain", "opt", "bin")] + list(MORE)
    q += [(f"{k},{n},{o}", dict(kind=k, net=n, opt=o, **({"depth": depth} if k == "histories" else {}))) for k in ("histories", "occupied", "faults") for n, o in MORE]
    q += [(f"processes,seed={s}", dict(kind="processes", seed=s, todo=todo)) for s in ((0, 1, 2) if not c.thorough else range(8))]
    c.run(q, case)
    c.assumptions = ["one thread of one process uses a generator and a directory at a time"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
