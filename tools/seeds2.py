seed("cst-any", "C10", "a tensor with two distant consumers, the first of which makes another tensor with two consumers that are executed before the second one",
     "the constant buffer of a tensor is freed after its first consumer instead of its last one",
     [("graph/graph_interpretor.py", "if parent.idx in dict_cst and all(", "if parent.idx in dict_cst and any(")],
     '''
from dm import *
r = np.random.default_rng(1)
k = lambda v: np.full((1, 2, 3, 3), v, np.float32)
m = model([("Add", ["X", "k1"], ["a"], {}), ("Mul", ["a", "k2"], ["b"], {}), ("Add", ["b", "k3"], ["c"], {}), ("Mul", ["c", "k4"], ["d0"], {}), ("Add", ["b", "d0"], ["d"], {}), ("Add", ["d", "k1"], ["e"], {}), ("Mul", ["a", "e"], ["Y"], {})],
          [("X", (1, 2, 3, 3), T.FLOAT)], [("Y", None, T.FLOAT)], {"k1": k(1), "k2": k(2), "k3": k(3), "k4": k(4)})
X = r.integers(-4, 5, (2, 1, 18)).astype(np.float32)
c, p = acetone(m, X)
same("C", c, ort(m, X, (1, 2, 3, 3)))
''')
seed("cst-last-size", "C13", "two tensors of different sizes kept in the same constant buffer, the larger one first",
     "the constant buffer is declared with the size of the last tensor it holds: the larger one overflows in the context",
     [("generator/neural_network.py", """                written[self.dict_cst[idx]] = max(
                    written[self.dict_cst[idx]],
                    layer.size,
                )

        for cst, s in written.items():
            mustach_hash["cst"].append({"name": cst, "size": s})

        # FIXME not all""", """                written[self.dict_cst[idx]] = layer.size

        for cst, s in written.items():
            mustach_hash["cst"].append({"name": cst, "size": s})

        # FIXME not all""")],
     '''
import re
from dm import *
r = np.random.default_rng(1)
# 'a' (24 values) then 'b' (2 values) are both kept in the same constant buffer
m = model([("Relu", ["X"], ["a"], {}), ("Mul", ["a", "a2"], ["b0"], {}), ("Add", ["a", "b0"], ["c"], {}), ("ReduceSum", ["c", "ax"], ["b"], dict(keepdims=1)), ("Mul", ["b", "b2"], ["d"], {}), ("Add", ["b", "d"], ["Y"], {})],
          [("X", (1, 2, 3, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"a2": np.full((1, 2, 3, 4), 2, np.float32), "b2": np.full((1, 2, 1, 1), 3, np.float32), "ax": np.array([2, 3], np.int64)})
X = r.integers(1, 5, (1, 1, 24)).astype(np.float32)
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    with contextlib.redirect_stdout(io.StringIO()):
        CodeGenerator(file=d + "/m.onnx", nb_tests=1, test_dataset=X).generate_c_files(d + "/g")
    # An access beyond an array of the context is reported
    b = subprocess.run("gcc -g -w -fsanitize=undefined,bounds -fno-sanitize-recover=all -o prog *.c -lm", shell=True, cwd=d + "/g", capture_output=True, text=True)
    if b.returncode:
        print(b.stderr[-1000:]); sys.exit(1)
    e = subprocess.run(["./prog", "out.txt"], cwd=d + "/g", capture_output=True, text=True)
    print(e.returncode, e.stderr[-300:])
    sys.exit(1 if e.returncode else 0)
''')
seed("tanh-overflow", "C08", "a hyperbolic tangent of a value above 44 (single precision)",
     "the form of tanh made for negative inputs is used up to 64: exp(2x) overflows and the result is not a number",
     [("generator/activation_functions.py", 'return f"({local_var} < 0.) ? (expf(2.*', 'return f"({local_var} < 64.) ? (expf(2.*')],
     '''
from dm import *
m = model([("Tanh", ["X"], ["Y"], {})], [("X", (1, 8), T.FLOAT)], [("Y", None, T.FLOAT)])
X = np.array([[[-50, -1, -.5, 0, .5, 1, 45, 60]]], np.float32)
c, p = acetone(m, X)
same("C", c, ort(m, X, (1, 8)))
''')
seed("version-priority", "C24", "implementations given both for the kind of the layers and for the number of one of them",
     "the implementation of the kind takes precedence over the one of the layer number",
     [("generator/neural_network.py", "for k in [layer.idx, layer.name]:", "for k in [layer.name, layer.idx]:")],
     '''
from dm import *
w = np.ones((1, 1, 2, 2), np.float32)
m = model([("Conv", ["X", "w"], ["c"], dict(kernel_shape=[2, 2])), ("Conv", ["c", "w"], ["Y"], dict(kernel_shape=[2, 2]))], [("X", (1, 1, 4, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"w": w})
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    onnx.save(m, d + "/m.onnx")
    g = CodeGenerator(file=d + "/m.onnx", versions={"Conv2D": "std_gemm_nn", 2: "indirect_gemm_nn"})
got = [type(l).__name__ for l in g.layers[1:]]
print(got)
sys.exit(got != ["Conv2DStdGemm", "Conv2DIndirectGemm"])
''')
seed("compare-last-line", "C16", "two output files that differ in a row which is not the last one compared",
     "compare_files forgets the verdict of every row but the last",
     [("cli/compare.py", "        line_comparison = float_comparison & line_comparison\n\n        max_diff_file", "        line_comparison = float_comparison\n\n        max_diff_file")],
     '''
from dm import *
from acetone_nnet.cli.compare import compare_files
with tempfile.TemporaryDirectory() as d:
    for n, rows in (("a", "1 2\\n3 4\\n5 6\\n"), ("b", "1 2\\n3 9\\n5 6\\n")):
        Path(d, n).write_text(rows)
    ok = compare_files(d + "/a", d + "/b", 3, "float")[0]
    eq = compare_files(d + "/a", d + "/a", 3, "float")[0]
print(ok, eq)
sys.exit(ok or not eq)
''')
seed("zeropadding-sides", "C17", "a JSON description with a ZeroPadding2D layer whose top and bottom paddings differ",
     "the importer exchanges the paddings of the top and of the bottom",
     [("importers/JSON_importer/parser_JSON.py", "pad_top, pad_bottom = pads[0][0], pads[0][1]", "pad_top, pad_bottom = pads[0][1], pads[0][0]")],
     '''
import json
from dm import *
for fmt in ("channels_first", "channels_last"):
    x, y = [None, 2, 3, 2], [None, 2, 6, 4]
    net = {"config": {"data_format": fmt, "layers": [
        {"class_name": "InputLayer", "config": {"name": "in", "dtype": "float32", "size": 12, "input_shape": x, "output_shape": x, "idx": 0, "prev_layer_idx": []}},
        {"class_name": "ZeroPadding2D", "config": {"name": "pad", "dtype": "float32", "size": 48, "input_shape": [1, 2, 3, 2], "output_shape": [1, 2, 6, 4], "padding": [[1, 2], [0, 2]], "idx": 1, "prev_layer_idx": [0]}}]}}
    X = np.arange(12, dtype=np.float32).reshape(1, 1, 12)
    a = X.reshape(2, 3, 2) if fmt == "channels_first" else X.reshape(3, 2, 2).transpose(2, 0, 1)
    want = np.pad(a, ((0, 0), (1, 2), (0, 2)))
    want = (want if fmt == "channels_first" else want.transpose(1, 2, 0)).reshape(1, -1)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "net.json")
        Path(f).write_text(json.dumps(net))
        c, p = acetone(f, X)
    same("C " + fmt, c, want)
    same("python " + fmt, p, want)
''')
seed("nnet-six-digits", "C18", "a normalised .nnet network whose constants need more than six significant digits",
     "the normalisation constants are written in the C code with six digits",
     [("importers/NNET_importer/nnet_normalize.py", 's += str(element) + ", "', 's += f"{element:g}, "')],
     '''
from dm import *
W = [[[1.0, -1.0], [2.0, 1.0]], [[1.0, 1.0]]]
B = [[0.0, 1.0], [0.5]]
mins, maxs, means, ranges = [-1e9, -1e9], [1e9, 1e9], [1234567.0, 2345678.0, 0.0], [1.0, 1.0, 1.0]
row = lambda v: ",".join(repr(x) for x in v) + ",\\n"
s = "// x\\n" + row([2, 2, 1, 2]) + row([2, 2, 1]) + row([0]) + row(mins) + row(maxs) + row(means) + row(ranges)
for w, b in zip(W, B):
    s += "".join(map(row, w)) + "".join(row([x]) for x in b)
X = np.array([[[1234570.0, 2345670.0]]], np.float32)
h = X[0, 0].astype(float) - means[:2]
for w, b in zip(W, B):
    h = np.array(w) @ h + b
    h = np.maximum(h, 0) if len(h) > 1 else h
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "net.nnet")
    Path(f).write_text(s)
    c, p = acetone(f, X, normalize=True)
same("python", p, h.reshape(1, 1))
same("C", c, h.reshape(1, 1))
''')
seed("cli-page-size", "C26", "acetone_generate with --target_page_size, other than 4096",
     "the page size given on the command line is not passed to the generator",
     [("cli/generate.py", "        target_page_size=target_page_size,\n", "")],
     '''
from dm import *
m = model([("Add", ["X", "k"], ["Y"], {})], [("X", (1, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"k": np.ones((1, 4), np.float32)})
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    r = subprocess.run([sys.executable, "-m", "acetone_nnet.cli.generate", "--model", d + "/m.onnx", "--function", "f", "--output", d + "/out", "--dataset-size", "1", "--target_page_size", "64"], capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-500:]); sys.exit(1)
    with contextlib.redirect_stdout(io.StringIO()):
        CodeGenerator(file=d + "/m.onnx", function_name="f", nb_tests=1, target_page_size=64, versions={"Conv2D": "std_gemm_nn"}).generate_c_files(d + "/ref")
    bad = [f.name for f in Path(d, "ref").iterdir() if f.read_bytes() != Path(d, "out", f.name).read_bytes()]
print("different files:", bad)
sys.exit(bool(bad))
''')
seed("decimal-seven", "C12", "decimal literals (to_hex=False) and a value that needs eight significant digits or more",
     "decimal constants are written with seven significant digits",
     [("generator/neural_network.py", "        return str(float(d))\n", '        return f"{float(d):.7g}"\n')],
     '''
from dm import *
import re
v = np.array([[16777215.0, 0.1, 1 / 3, 123456.789]], np.float32)
m = model([("Add", ["X", "k"], ["Y"], {})], [("X", (1, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"k": v})
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    with contextlib.redirect_stdout(io.StringIO()):
        CodeGenerator(file=d + "/m.onnx", nb_tests=1, test_dataset=np.zeros((1, 1, 4), np.float32), to_hex=False).generate_c_files(d + "/g")
    t = Path(d, "g", "parameters.c").read_text()
nums = [np.float32(x) for x in re.findall(r"[-+]?\\d+\\.?\\d*(?:e[-+]?\\d+)?", t)]
print(nums, v)
sys.exit(not all(x in nums for x in v[0]))
''')
seed("gemm-tt-beta", "C04", "a Gemm with transA and transB both set, a bias, and alpha different from beta",
     "the bias of a Gemm with both operands transposed is multiplied by alpha",
     [("generator/layers/gemm/GemmDefault.py", '''    ) -> str:
        """Generate computation code for tt gemm."""
        mustach_hash = {}

        mustach_hash["name"] = self.name
        mustach_hash["idx"] = f"{self.idx:02d}"
        mustach_hash["m"] = m
        mustach_hash["n"] = n
        mustach_hash["k"] = k
        mustach_hash["A"] = a
        mustach_hash["B"] = b
        mustach_hash["activation_function"] = (
            self.activation_function.write_activation_str(
                f"ctx->tensor_temp[i*{n}+j]",
            )
        )
        mustach_hash["alpha"] = self.alpha
        mustach_hash["beta"] = self.beta
''', '''    ) -> str:
        """Generate computation code for tt gemm."""
        mustach_hash = {}

        mustach_hash["name"] = self.name
        mustach_hash["idx"] = f"{self.idx:02d}"
        mustach_hash["m"] = m
        mustach_hash["n"] = n
        mustach_hash["k"] = k
        mustach_hash["A"] = a
        mustach_hash["B"] = b
        mustach_hash["activation_function"] = (
            self.activation_function.write_activation_str(
                f"ctx->tensor_temp[i*{n}+j]",
            )
        )
        mustach_hash["alpha"] = self.alpha
        mustach_hash["beta"] = self.alpha
''')],
     '''
from dm import *
r = np.random.default_rng(1)
g = lambda *s: r.integers(-3, 4, s).astype(np.float32)
w, b = g(4, 3), g(4)
for ta, tb in ((0, 0), (0, 1), (1, 0), (1, 1)):
    m = model([("Gemm", ["X", "w", "b"], ["Y"], dict(alpha=0.5, beta=2.0, transA=ta, transB=tb))], [("X", (3, 1) if ta else (1, 3), T.FLOAT)], [("Y", None, T.FLOAT)], {"w": w if tb else w.T.copy(), "b": b})
    X = g(2, 1, 3)
    c, p = acetone(m, X)
    want = ort(m, X, (3, 1) if ta else (1, 3))
    same(f"C {ta}{tb}", c, want)
    same(f"python {ta}{tb}", p, want)
''')
