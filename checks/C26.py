"""C26: the command line generates what its options say.

Every combination of the options of acetone_generate, every spelling of its booleans, on networks of every file format: the files written and the results have to be those of the CodeGenerator called
with the parameters the options mean; what has no meaning has to be refused. Both commands are also run as processes, around the compiled program, as the README describes."""
import contextlib
import io
import itertools
import json
import os
import subprocess
import sys
from pathlib import Path

import numpy as np

import acx
import jsonnet
from acx import Bad, count, node, onnx_model, product, scratch, union
from models import infer, ints
from nnet import weights, write

BOOL = {None: False, "": True, "True": True, "False": False, "true": True, "false": False, "1": True, "0": False, "yes": True, "no": False, "FALSE": False}
BAD = ("maybe", "2", "None", "-1")
SMALL = (None, "", "True", "False")


def model(kind, d):
    if kind == "onnx":
        import onnx
        I = {"w": ints((3, 2, 2, 2), 5, 1, 7, 3), "b": ints((3,), 3, 2, 5, 2), "f": ints((3 * 2 * 3, 2), 5, 2, 7, 3)}
        m = infer(onnx_model([node("Conv", ["X", "w", "b"], ["a"], kernel_shape=[2, 2]), node("Relu", ["a"], ["c"]), node("Flatten", ["c"], ["e"]), node("MatMul", ["e", "f"], ["y"])], [("X", (1, 2, 3, 4))], [("y", ())], I))
        onnx.save(m, d / "m.onnx")
        return d / "m.onnx", 24
    if kind == "json":
        n = jsonnet.Net((2, 3, 4), "channels_last", "float64")
        n.add("Conv2D", filters=3, kernel_size=[2, 2], activation="relu")
        n.add("Flatten")
        n.add("Dense", units=2, activation="tanh")
        n.dump(d / "m.json")
        return d / "m.json", 24
    W, B = weights((3, 2, 2))
    write(d / "m.nnet", (3, 2, 2), W, B, [-1] * 3, [2] * 3, [.5, -.25, .125, 2.0], [2, 4, .5, 3.0])
    return d / "m.nnet", 3


def dataset(d, n, rows):
    v = (np.arange(rows * n) * 7 % 23 - 11).reshape(rows, n) / 4
    (d / "data.txt").write_text("".join(json.dumps([float.hex(float(x)) for x in r]) + "\n" for r in v))
    return d / "data.txt"


def tree(d):
    return {p.name: p.read_bytes() for p in sorted(d.iterdir())}


def clean(d):
    if d.exists():
        for p in d.iterdir():
            p.unlink()
        d.rmdir()


API = {}


def expected(m, ds, function, size, conv, opt, binary, page, norm, verbose, out, cache, **kw):
    """Files the generator writes in out for these parameters, with their results."""
    if cache not in API:
        from acetone_nnet import CodeGenerator
        with acx.quiet():
            try:
                g = CodeGenerator(file=m, test_dataset=ds, function_name=function, nb_tests=size, versions={"Conv2D": conv}, normalize=norm, optimization=opt, bin_dataset=binary, target_page_size=page, verbose=verbose, **kw)
                out.mkdir()
                g.generate_c_files(out)
                g.compute_inference(str(out))
                API[cache] = tree(out)
            except Exception:
                API[cache] = None
            clean(out)
    return API[cache]


def cli(argv):
    """-> exit status of the command."""
    from acetone_nnet.cli.generate import acetone_generate
    old, sys.argv = sys.argv, ["acetone_generate", *map(str, argv)]
    err = io.StringIO()
    try:
        with acx.quiet(), contextlib.redirect_stderr(err):
            acetone_generate()
        return 0
    except SystemExit as e:
        return 0 if e.code in (None, 0) else 2
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    finally:
        sys.argv = old


def opt_args(name, v, eq):
    return [] if v is None else [f"--{name}"] if v == "" else [f"--{name}={v}"] if eq else [f"--{name}", v]


def check(d, m, argv, want, what):
    count("commands")
    out = d / "out"
    r = cli(argv)
    fails = []
    if want is None:
        if r == 0:
            fails.append(("accepted", f"{what}: accepted"))
        elif out.exists() and any(out.iterdir()):
            fails.append(("refused", f"{what}: refused, and files {sorted(p.name for p in out.iterdir())} are written"))
        count("refused")
    elif r != 0:
        fails.append(("refused", f"{what}: refused ({r})"[:250]))
    else:
        got = tree(out)
        if set(got) != set(want):
            fails.append(("files", f"{what}: files {sorted(set(got) ^ set(want))} differ"))
        else:
            bad = [k for k in got if got[k] != want[k]]
            if bad:
                fails.append(("content", f"{what}: {bad} are not those of the parameters"))
    clean(out)
    return fails


CONVS = (None, "6loops", "std_gemm_nn", "indirect_gemm_tt")


def options(kind, conv, opt, full):
    fails = []
    with scratch() as d:
        API.clear()
        m, n = model(kind, d)
        ds = dataset(d, n, 3)
        bools = tuple(BOOL) if full else SMALL
        for binary, verbose, page, data, size, norm, eq in itertools.product(bools, (None, "True", "False", "") if not full else SMALL[:2], (None, 64), (False, True), (1, 3), (False, True) if kind == "nnet" else (False,), (False, True)):
            argv = ["--model", m, "--function", "net", "--output", d / "out", "--dataset-size", size, *opt_args("conv", conv, eq), *opt_args("optimization", opt, eq), *opt_args("bin_dataset", binary, eq),
                    *opt_args("verbose", verbose, eq), *opt_args("target_page_size", page and str(page), eq), *(["--dataset", ds] if data else []), *(["--normalize"] if norm else [])]
            par = (m, ds if data else None, "net", size, conv or "std_gemm_nn", BOOL[opt], BOOL[binary], page or 4096, norm, BOOL[verbose])
            want = expected(*par, d / "out", par)
            if want is None:
                raise Bad("generator", f"{par} is refused by the generator")
            fails += check(d, m, argv, want, " ".join(map(str, argv[8:])))
            if len(fails) > 5:
                break
    return fails


def wrong(kind):
    """What has no meaning is refused, and nothing is written."""
    fails = []
    with scratch() as d:
        m, n = model(kind, d)
        ds = dataset(d, n, 3)
        (d / "torn.onnx").write_bytes((d / "m.onnx").read_bytes()[:50] if kind == "onnx" else b"?")
        (d / "m.xyz").write_bytes(Path(m).read_bytes())
        base = {"model": m, "function": "net", "output": d / "out", "dataset-size": 2}
        flat = lambda o: [x for k, v in o.items() for x in (f"--{k}", v)]
        cases = [flat({k: v for k, v in base.items() if k not in drop}) for r in (1, 2, 3, 4) for drop in itertools.combinations(base, r)]
        cases += [flat(base | {k: v}) for k, v in (("dataset-size", "two"), ("dataset-size", "1.5"), ("target_page_size", "big"), ("model", d / "absent.onnx"), ("model", d / "torn.onnx"), ("model", d / "m.xyz"), ("model", d),
                                                   ("dataset", d / "absent.txt"), ("dataset", m), ("dataset-size", ""))]
        cases += [flat(base) + [f"--{o}", v] for o in ("optimization", "bin_dataset", "verbose") for v in BAD]
        cases += [[*flat(base), "--nothing"], [*flat(base), "extra"], [*flat(base), "--normalize", "True"]]
        if kind != "nnet":
            cases += [flat(base | {"conv": "fastest"})]
        for argv in cases:
            fails += check(d, m, argv, None, " ".join(map(str, argv)))
        # a project that exists is refused and stays as it is
        if cli(flat(base)) != 0:
            fails.append(("refused", "the first generation is refused"))
        else:
            before = tree(d / "out")
            if cli(flat(base | {"dataset": ds})) == 0:
                fails.append(("accepted", "an existing project is accepted"))
            if tree(d / "out") != before:
                fails.append(("refused", "an existing project is changed"))
    return fails


def direct(kind, hexa, fmt):
    """cli_acetone called from Python, with its own defaults."""
    from acetone_nnet.cli.generate import cli_acetone
    fails = []
    with scratch() as d:
        API.clear()
        m, n = model(kind, d)
        ds = dataset(d, n, 3)
        for conv, opt, binary, data, verbose, norm in itertools.product((None, "6loops"), (None, False, True), (None, False, True), (False, True), (None, True), (None, True) if kind == "nnet" else (None,)):
            kw = {k: v for k, v in dict(conv_algorithm=conv, optimization=opt, bin_dataset=binary, verbose=verbose, normalize=norm, test_dataset_file=str(ds) if data else None, to_hex=hexa, gen_data_format=fmt).items() if v is not None}
            par = (m, ds if data else None, "net", 2, conv or "std_gemm_nn", bool(opt), bool(binary), 4096, bool(norm), bool(verbose))
            more = {k: v for k, v in dict(to_hex=hexa, gen_data_format=fmt).items() if v is not None}
            want = expected(*par, d / "out", par, **more)
            count("commands")
            try:
                with acx.quiet():
                    cli_acetone(m, "net", 2, str(d / "out"), **kw)
                got = tree(d / "out")
            except Exception as e:
                got = None
                if want is not None:
                    fails.append(("refused", f"{kw}: {type(e).__name__}: {e}"[:200]))
            if want is None:
                if got is not None:
                    fails.append(("accepted", f"{kw}: refused by the generator"))
                count("refused")
            elif got is not None and got != want:
                fails.append(("content", f"{kw}: {[k for k in {*got, *want} if got.get(k) != want.get(k)]} differ"))
            clean(d / "out")
    return fails


def process(kind, conv, opt, extra):
    """The README: generate, make, run, compare."""
    env = {**os.environ, "PYTHONPATH": str(acx.import_target() or "") or os.environ.get("PYTHONPATH", "")}
    py = lambda mod, f, *a: subprocess.run([sys.executable, "-c", f"import sys; sys.argv[0] = '{f}'; from acetone_nnet.cli.{mod} import {f}; {f}()", *map(str, a)], capture_output=True, text=True, timeout=200, env=env)
    with scratch() as d:
        m, n = model(kind, d)
        ds = dataset(d, n, 3)
        out = d / "deep" / "out"
        r = py("generate", "acetone_generate", "--model", m, "--function", "net", "--output", out, "--dataset-size", 3, "--dataset", ds, "--conv", conv, *opt_args("optimization", opt, False), *extra)
        if r.returncode:
            return [("process", f"acetone_generate exits with {r.returncode}: {r.stderr[-200:]}")]
        r = subprocess.run(["make", "all"], cwd=out, capture_output=True, text=True, timeout=300)
        if r.returncode:
            return [("make", r.stderr[-250:])]
        acx.run_exe([out / "net", out / "output_acetone.txt"])
        fails = []
        prec = "double" if kind == "json" else "float"
        r = py("compare", "acetone_compare", out / "output_python.txt", out / "output_acetone.txt", 3, "--precision", prec)
        v = [float(l.split(":")[1]) for l in r.stdout.splitlines() if ":" in l]
        if r.returncode or len(v) != 2 or not v[1] < 1e-5:
            fails.append(("compare", f"exit {r.returncode}, errors {v}: {r.stderr[-150:]}"))
        count("programs")
        L = (out / "output_acetone.txt").read_text().splitlines()
        if len(L) != 3:
            fails.append(("rows", f"{len(L)} rows for 3 tests"))
        L[2] = " ".join(float.hex(float.fromhex(x) * 1.5 + 1) for x in L[2].split())
        (out / "other.txt").write_text("\n".join(L) + "\n")
        r = py("compare", "acetone_compare", out / "output_python.txt", out / "other.txt", 3, "--precision", prec)
        v = [float(l.split(":")[1]) for l in r.stdout.splitlines() if ":" in l]
        if len(v) != 2 or not v[1] > 1e-2:
            fails.append(("compare", f"another result: errors {v}"))
    return fails



def main():
    acx.import_target()
    c = acx.Check("C26", rule="one case per network file, convolution and optimisation option; every combination of the other options inside; non-trivial when options change the files")
    kinds = ("onnx", "json", "nnet")
    q = []
    for k in kinds:
        for conv in CONVS if k != "nnet" else CONVS[:2]:
            for o in BOOL if c.thorough or conv is None else SMALL:
                q.append((f"options {k},conv={conv},optimization={o}", dict(kind="options"), dict(kind=k, conv=conv, opt=o, full=c.thorough or (conv, o) == (None, None))))
        q.append((f"wrong {k}", dict(kind="wrong"), dict(kind=k)))
        for h in (None, True, False):
            for f in (None, "channels_first", "channels_last"):
                q.append((f"direct {k},to_hex={h},format={f}", dict(kind="direct"), dict(kind=k, hexa=h, fmt=f)))
        for conv, opt, extra in (("6loops", None, ()), ("std_gemm_nn", "True", ()), ("indirect_gemm_nt", "False", ("--verbose", "True")), ("std_gemm_tt", "", ("--bin_dataset", "True")), *([("6loops", None, ("--normalize",))] if k == "nnet" else [])):
            q.append((f"process {k},conv={conv},optimization={opt},{' '.join(extra)}", dict(kind="process"), dict(kind=k, conv=conv, opt=opt, extra=extra)))
    c.run([(n, dict(what=a["kind"], args=b)) for n, a, b in q], lambda what, args: {"options": options, "wrong": wrong, "direct": direct, "process": process}[what](**args))
    c.assumptions = ["files written at the same path with the same parameters are the same (C15)"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
