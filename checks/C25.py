"""C25: the inputs of the tests are the rows of the dataset.

Every file of up to three lines over an alphabet of line styles (good, unusual and wrong ones), every number of tests, encoding and data type, every shape, order and type of array: what the generator
accepts has to be, in the Python results and in the compiled program, exactly the first nb_tests rows; what is not a dataset of the network has to be refused. The network moves values only."""
import hashlib
import itertools
import json
import os
import subprocess
import sys
from pathlib import Path

import numpy as np

import acx
import jsonnet
from acx import Bad, count, gen_files, node, onnx_model, product, run_exe, scratch, union
from models import infer

SIZE = 3
TYPES = {"float": np.float32, "double": np.float64, "int": np.int64}
V = {"float": [[0.1, -2.5, 3e-40], [7.25, 1e10, -0.0], [1 / 3, 12.0, -100.0]], "int": [[10, -2, 255], [2**63 - 1, -2**63, 2**53 + 1], [16, 12, -100]]}
V["double"] = [[0.1, -2.5, 3e-310], [7.25, 1e300, -0.0], [1 / 3, 12.0, -100.0]]


def lines(dtype):
    """Name -> (text, row or None when it is not a row of the network, True when it must be accepted)."""
    a, b, c = V[dtype]
    isint = dtype == "int"
    nt = TYPES[dtype]
    cast = lambda r: [nt(x) for x in r]
    hx = (lambda r: json.dumps([str(x) for x in r])) if isint else (lambda r: json.dumps([float.hex(float(x)) for x in r]))
    L = {
        "hex": (hx(a) + "\n", a, True),
        "hex2": (hx(b) + "\n", b, True),
        "num": (json.dumps(c) + "\n", c, True),
        "str": (json.dumps([repr(x) for x in c]) + "\n", c, True),
        "HEX": (hx(c).replace("0x", "0X").replace("p", "P") + " \r\n", c, True),
        "spaces": (" [ 1 ,2,  3 ] \n", [1, 2, 3], True),
        "mixed": ('["16", 12, -4]\n', [16, 12, -4], True),
        "short": (json.dumps([1, 2]) + "\n", None, False),
        "long": (json.dumps([1, 2, 3, 4]) + "\n", None, False),
        "empty": ("\n", None, False),
        "none": ("[]\n", None, False),
        "scalar": ("5\n", None, False),
        "word": ('["1", "2", "three"]\n', None, False),
        "null": ("[1, 2, null]\n", None, False),
        "text": ("1 2 3\n", None, False),
        "csv": ("1, 2, 3\n", None, False),
        "nested": ("[[1, 2, 3]]\n", None, False),
        "object": ('{"1": 2, "2": 3, "3": 4}\n', None, False),
        "string": ('"123"\n', None, False),
        "two": ("[1, 2, 3] [4, 5, 6]\n", None, False),
        "six": ("[1, 2, 3, 4, 5, 6]\n", None, False),
    }
    if isint:
        L["big"] = ("[1, 2, 9223372036854775808]\n", None, False)
        L["half"] = ("[1, 2, 2.5]\n", None, False)
    return {k: (t, None if r is None else cast(r), ok) for k, (t, r, ok) in L.items()}


def network(dtype):
    if dtype == "int":
        net = jsonnet.Net((SIZE,), "channels_last", "int")
        net.add("Dense", units=2 * SIZE)
        net.layers[1]["weights"], net.layers[1]["biases"] = np.tile(np.eye(SIZE, dtype=int), 2).tolist(), [0] * 2 * SIZE
        p = Path("int.json").resolve()
        net.dump(p)
        return p
    from onnx import TensorProto as T
    t = {"float": T.FLOAT, "double": T.DOUBLE}[dtype]
    return infer(onnx_model([node("Tile", ["X", "r"], ["y"])], [("X", (1, 1, 1, SIZE), t)], [("y", (), t)], {"r": np.array([1, 1, 2, 1])}, opset=13))


def value(w, nt):
    return nt(float.fromhex(w)) if "x" in w else nt(float(w)) if nt is not np.int64 else nt(int(w))


class Seen(dict):
    """Results of the programs already run, by the text of their data and main program."""


SEEN = Seen()


def program(gen, d, nt):
    """Rows given by the compiled program."""
    gen_files(gen, d)
    src = [p for p in ("main.c", "inference.c", "global_vars.c", "parameters.c", "train_hook.c", "test_dataset.c", "test_dataset.h", "test_dataset.dat", "inference.h", "Makefile") if (d / p).exists()]
    key = hashlib.sha256(b"".join((d / p).read_bytes() for p in src)).hexdigest()
    if key not in SEEN:
        if (d / "test_dataset.dat").exists():
            r = subprocess.run(["make", "CFLAGS=-w -O0", "inference"], cwd=d, capture_output=True, text=True, timeout=200)
            exe = d / "inference"
        else:
            exe = d / "prog"
            r = subprocess.run(["gcc", "-w", "-O0", "-fsanitize=address,undefined", "-o", exe, *[s for s in src if s.endswith(".c") and s != "train_hook.c"], "-lm"], cwd=d, capture_output=True, text=True, timeout=200)
        if r.returncode:
            raise Bad("compile", (r.stderr.splitlines() or ["?"])[0][-200:])
        run_exe([exe, d / "out.txt"])
        count("programs")
        SEEN[key] = (d / "out.txt").read_text()
    return [[value(w, nt) for w in l.split()] for l in SEEN[key].splitlines()]


def same(got, want, exact):
    if len(got) != len(want):
        return f"{len(got)} rows, dataset {len(want)}"
    for k, (g, w) in enumerate(zip(got, want, strict=True)):
        w = [*w, *w]
        if len(g) != len(w):
            return f"row {k} has {len(g)} values"
        for j, (x, y) in enumerate(zip(g, w, strict=True)):
            if exact and (x != y or np.signbit(x) != np.signbit(y)) or not exact and not np.isclose(x, y, rtol=1e-5, atol=1e-37):
                return f"row {k} value {j}: {x!r}, dataset {y!r}"
    return None


def judge(dtype, rows, must, data, nb, what, hexa=True, binary=False, ext=False, py=True):
    """rows: what the dataset holds, None if it is none; must: it has to be accepted."""
    from acetone_nnet import CodeGenerator
    nt = TYPES[dtype]
    fails = []
    count("datasets")
    with scratch() as d:
        os.chdir(d)
        try:
            gen = CodeGenerator(network(dtype), nb_tests=nb, test_dataset=None if ext else data, to_hex=hexa, bin_dataset=binary, external_input=ext)
            if ext:
                n0 = gen.nb_tests
                gen.compute_inference(str(d), data)
                if gen.nb_tests != n0:
                    fails.append(("state", f"{what}: the number of tests of the generator becomes {gen.nb_tests}"))
            else:
                c = program(gen, d, nt)
                gen.compute_inference(str(d))
        except Bad as b:
            if must or b.stage not in ("import", "codegen"):
                return [(b.stage, f"{what}: {b.msg}")]
            count("refused")
            return []
        except Exception as e:
            if must:
                return [("refused", f"{what}: {type(e).__name__}: {e}"[:200])]
            count("refused")
            return []
        if rows is None:
            return [("accepted", f"{what} is no dataset of the network, and was accepted")]
        count("accepted")
        p = [[value(w, nt) for w in l.split()] for l in (d / "output_python.txt").read_text().splitlines()]
        for k, got in (("python", p), *([] if ext else [("program", c)])):
            m = same(got, rows, hexa or dtype == "int" or k == "python")
            if m:
                fails.append((k, f"{what}: {m}"))
        if not ext and gen.nb_tests != len(rows):
            fails.append(("state", f"{what}: {gen.nb_tests} tests for {len(rows)} rows"))
    return fails


def files(first, dtype, hexa, nbs, depth, ext=False):
    L = lines(dtype)
    fails = []
    with scratch() as f:
        for n in range(1, depth + 1):
            for rest in itertools.product(L if n < 3 else ("hex", "hex2", "num", "short", "empty", "text"), repeat=n - 1):
                names = (first, *rest)
                for tail in (False, True) if names[-1] in ("hex", "num") else (False,):
                    t = "".join(L[k][0] for k in names)
                    p = f / "data.txt"
                    p.write_bytes((t.rstrip("\n") if tail else t).encode())
                    for nb in nbs:
                        used = [L[k] for k in names[:nb]]
                        ok = all(u[1] is not None for u in used)
                        fails += judge(dtype, [u[1] for u in used] if ok else None, ok, p if nb % 2 else str(p), nb if nb != 2 else "2" if not ext else 2,
                                       f"file of lines {names}{' without end of line' if tail else ''}, {nb} tests", hexa, ext=ext)
                        if len(fails) > 5:
                            return fails
    return fails


def arrays(dtype, binary, hexa, ext=False):
    nt = TYPES[dtype]
    fails = []
    base = np.array(V[dtype], nt)
    ro = base.copy()
    ro.flags.writeable = False
    wide = np.arange(60).reshape(6, 10)
    good = {
        "rows": base, "rows x 1": base.reshape(3, 1, 3), "shape": base.reshape(3, 1, 1, 3), "shape2": base.reshape(3, 1, 1, 1, 3), "fortran": np.asfortranarray(base), "read only": ro, "one": base[:1],
        "none": base[:0], "every second": np.array(wide, nt)[::2, 1:7:2], "backwards": base[::-1, ::-1], "transposed": np.array(wide, nt)[:3, :2].T, "int64": np.arange(6).reshape(2, 3) - 3, "uint8": np.arange(6, dtype=np.uint8).reshape(2, 3),
        "int8": np.arange(6, dtype=np.int8).reshape(2, 3) - 3, "big endian": base.astype(base.dtype.newbyteorder()), "float64": np.array([[1, 2, 3], [4, -5, 6]], np.float64), "float32": np.array([[1, 2, 3], [4, -5, 6]], np.float32),
        "float16": np.array([[1, 2, 3], [4, -5, 6]], np.float16), "many": np.array(np.arange(70 * 3).reshape(70, 3), nt), "bool": np.array([[True, False, True]]),
    }
    if dtype != "int":
        good["thirds"] = np.array([[1 / 3, 2 / 3, 1e-3]], np.float64)
        good["thirds32"] = np.array([[1 / 3, 2 / 3, 1e-3]], np.float32)
    bad = {"flat": base.reshape(-1), "short": base[:, :2], "long": np.ones((3, 4), nt), "scalar": np.array(5, nt), "six": np.ones((1, 6), nt), "two in one": np.ones((1, 2, 3), nt), "text": np.array([["a", "b", "c"]])}
    if dtype == "int":
        bad |= {"half": np.array([[1, 2, 2.5]]), "big": np.array([[1, 2, 2.0**70]]), "nan": np.array([[1, 2, np.nan]])}
    for name, X in good.items():
        before = X.tobytes(), X.dtype, X.shape
        rows = [list(r.astype(nt)) for r in X.reshape(len(X), -1)] if len(X) else []
        for nb in (0, len(X), 5):
            if binary and not len(X):            # nothing to put in the binary section
                continue
            fails += judge(dtype, rows, True, X, nb, f"array {name}, nb_tests={nb}", hexa, binary, ext)
        if (X.tobytes(), X.dtype, X.shape) != before:
            fails.append(("mutated", f"array {name} was changed"))
    for name, X in bad.items():
        fails += judge(dtype, None, False, X, len(X) if X.ndim else 1, f"array {name}", hexa, binary, ext)
    return fails


def others(dtype, hexa):
    fails = []
    nt = TYPES[dtype]
    with scratch() as f:
        (f / "empty").write_text("")
        (f / "dir").mkdir()
        (f / "bin").write_bytes(bytes(range(256)))
        for p in (f / "absent", f / "dir", f / "bin"):
            fails += judge(dtype, None, False, p, 1, f"file {p.name}", hexa)
        for nb in (0, 1):
            fails += judge(dtype, [], nb == 0, f / "empty", nb, f"empty file, {nb} tests", hexa)
        for x in ([[1, 2, 3]], 5, b"x", {"a": 1}):
            fails += judge(dtype, None, False, x, 1, f"dataset {x!r}", hexa)
    from acetone_nnet import CodeGenerator
    for nb in range(0, 5):                       # no dataset: any rows, the same ones for both
        with scratch() as d:
            os.chdir(d)
            try:
                gen = CodeGenerator(network(dtype), nb_tests=nb, to_hex=hexa)
                c = program(gen, d, nt)
                gen.compute_inference(str(d))
            except Exception as e:
                return [*fails, ("random", f"{nb} random tests: {e}")]
            p = [[value(w, nt) for w in l.split()] for l in (d / "output_python.txt").read_text().splitlines()]
            m = same(c, [r[:SIZE] for r in p], hexa or dtype == "int")
            if m or len(p) != nb:
                fails.append(("random", f"{nb} random tests: {m or len(p)}"))
    return fails


def case(kind, **kw):
    return {"files": files, "arrays": arrays, "others": others}[kind](**kw)


def main():
    acx.import_target()
    c = acx.Check("C25", rule="one case per first line of the file (all continuations inside), or per type of array; non-trivial datasets have rows that differ")
    q = union(
        *[product("files ", kind=("files",), first=tuple(lines(t)), dtype=(t,), hexa=(True,), nbs=((0, 1, 2, 3),), depth=(2 if not c.thorough else 3,)) for t in TYPES],
        product("files ", kind=("files",), first=("hex", "num", "str"), dtype=("float", "int"), hexa=(True,), nbs=((1, 2, 3, 4),), depth=(3,)),
        *[product("files ", kind=("files",), first=tuple(lines(t)), dtype=(t,), hexa=(False,), nbs=((1, 2),), depth=(1 if not c.thorough else 2,)) for t in TYPES],
        *[product("files ", kind=("files",), first=tuple(lines(t)), dtype=(t,), hexa=(True,), nbs=((0, 1, 2, 3),), depth=(2,), ext=(True,)) for t in TYPES],
        product(kind=("arrays",), dtype=tuple(TYPES), binary=(False, True), hexa=(True, False)),
        product(kind=("arrays",), dtype=tuple(TYPES), binary=(False,), hexa=(True,), ext=(True,)),
        product(kind=("others",), dtype=tuple(TYPES), hexa=(True, False)),
    )
    seen = set()
    c.run([x for x in q if not (x[0] in seen or seen.add(x[0]))], case)
    c.assumptions = ["values that are not finite are not in the datasets", "a program whose source files are equal byte for byte to those of another one gives the same result"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
