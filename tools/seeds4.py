"""More planted bugs: C11, C15, C19."""
Q = '''
from dm import *
import json, tempfile
os.chdir(tempfile.mkdtemp())
def conf(layers):
    Path("AVX512VNNI.json").write_text(json.dumps({"name": "T", "cflags": "-O1", "quantization": {"dtype": "signed char", "temp_dtype": "short", "pydtype": "int8", "temp_pydtype": "int32", "layers": layers}}))
'''
seed("sigmoid-shared", "C11", "optimization=True with x*sigmoid(x) whose sigmoid is read by another layer too",
     "sigmoid and product are fused although another layer reads the sigmoid",
     [("pattern_matching/patterns/FuseSigmoidMul.py", "        if len(layer.next_layer) != 1:", "        if not layer.next_layer:")],
     '''
from dm import *
rng = np.random.default_rng(0)
m = model([("Neg" if False else "Relu", ["X"], ["r"], {}), ("Add", ["X", "b"], ["x"], {}), ("Sigmoid", ["x"], ["s"], {}), ("Mul", ["x", "s"], ["u"], {}), ("Add", ["u", "s"], ["v"], {}), ("Add", ["v", "r"], ["Y"], {})],
          [("X", (1, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"b": np.array([[1, -2, 0.5, 3]], np.float32)})
X = rng.integers(-3, 4, (3, 1, 4)).astype(np.float32)
want = ort(m, X, (1, 4))
for opt in (False, True):
    try:
        c, p = acetone(m, X, optimization=opt)
    except Exception as e:
        print("generation fails", type(e), e)
        sys.exit(1)
    same(f"C, optimization {opt}", c, want)
    same(f"python, optimization {opt}", p, want)
''')
seed("quant-trunc", "C19", "a fixed-point target and a constant operand that is no multiple of the unit of its format",
     "constants are cut to their format instead of rounded",
     [("generator/neural_network.py", "                        constant = np.rint(l.constant * (2**m))", "                        constant = np.trunc(l.constant * (2**m))")],
     Q + '''
b = np.array([[[[0.45, -0.45, 0.3, -0.3]]]], np.float32)
m = model([("Add", ["X", "b"], ["Y"], {})], [("X", (1, 1, 1, 4), T.FLOAT)], [("Y", (1, 1, 1, 4), T.FLOAT)], {"b": b})
conf({"X": {"out": "Q4.3"}, "Y": {"params": "Q4.3", "in": "Q4.3", "out": "Q4.3"}, "b": {"out": "Q4.3"}})
X = np.array([[[1, 2, 3, 4]], [[-5, 6, 0, 7]]], np.int8)
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    onnx.save(m, d + "/m.onnx")
    g = CodeGenerator(file=d + "/m.onnx", function_name="inference", nb_tests=2, test_dataset=X, target="AVX512VNNI")
    py = g.compute_inference(d)
same("python", np.array(py).reshape(1, 4), X[1] + np.array([[4, -4, 2, -2]]))
''')
seed("quant-temp", "C19", "a fixed-point target with a product whose sums do not fit the type of the tensors",
     "the temporary tensor has the type of the tensors: the sums of a product wrap around before they are scaled",
     [("templates/template_header_file.c.tpl", "    {{temp_data_type}} tensor_temp[{{temp_size}}]", "    {{data_type}} tensor_temp[{{temp_size}}]")],
     Q + '''
w = (np.eye(3) * 3.5).astype(np.float32)
m = model([("MatMul", ["X", "w"], ["Y"], {})], [("X", (1, 1, 1, 3), T.FLOAT)], [("Y", (1, 1, 1, 3), T.FLOAT)], {"w": w})
conf({"X": {"out": "Q4.3"}, "Y": {"params": "Q3.4", "in": "Q4.3", "out": "Q5.2"}, "w": {"out": "Q3.4"}})
X = np.array([[[40, -40, 8]], [[16, 24, -32]]], np.int8)
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    with contextlib.redirect_stdout(io.StringIO()):
        g = CodeGenerator(file=d + "/m.onnx", function_name="inference", nb_tests=2, test_dataset=X, target="AVX512VNNI")
        g.generate_c_files(d + "/out")
    out = Path(d) / "out"
    (out / "run.c").write_text("""#include <stdio.h>
#include "inference.h"
int main(void) { static signed char x[2][3] = {{40, -40, 8}, {16, 24, -32}}, y[3]; int i, j;
  for (i = 0; i < 2; ++i) { inference(&Context[0], y, x[i]); for (j = 0; j < 3; ++j) printf("%d ", y[j]); } return 0; }""")
    r = subprocess.run("gcc -o run run.c inference.c parameters.c global_vars.c -lm && ./run", shell=True, cwd=out, capture_output=True, text=True)
    print(r.stderr[-1500:])
    got = np.array([int(v) for v in r.stdout.split()])
same("C", got.reshape(-1, 3), (X.reshape(2, 3).astype(int) * 56) >> 5)
''')
seed("target-header-kept", "C15", "a directory that has a target.h and nothing else of the project, and a target",
     "the header of the target is not in the list of the files: an existing one is appended to",
     [("generator/neural_network.py", '            file_names.append("target.h")\n', "")],
     Q + '''
m = model([("Relu", ["X"], ["Y"], {})], [("X", (1, 1, 1, 3), T.FLOAT)], [("Y", (1, 1, 1, 3), T.FLOAT)])
conf({})
X = np.array([[[40, -40, 8]]], np.int8)
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    out = Path(d) / "out"
    out.mkdir()
    (out / "target.h").write_text("/* mine */")
    with contextlib.redirect_stdout(io.StringIO()):
        g = CodeGenerator(file=d + "/m.onnx", function_name="inference", nb_tests=1, test_dataset=X, target="AVX512VNNI")
        try:
            g.generate_c_files(out)
        except FileExistsError:
            pass
    files = sorted(p.name for p in out.iterdir())
    if files != ["target.h"] or (out / "target.h").read_text() != "/* mine */":
        print("an existing project was written to:", files)
        sys.exit(1)
''')
seed("shared-defaults", "C15", "a network with activation layers generated by two generators of one process, the first of which asks for implementations by kind",
     "the implementations a generator was asked for stay the default ones of the next generator",
     [("generator/neural_network.py", '        self.default_implementations = {\n            "Conv2D": "6loops",\n        }\n', '        self.default_implementations = CodeGenerator.DEFAULT_IMPLEMENTATIONS\n'),
      ("generator/neural_network.py", '    """Main module of ACETONE."""\n', '    """Main module of ACETONE."""\n\n    DEFAULT_IMPLEMENTATIONS: dict[str, str] = {"Conv2D": "6loops"}  # noqa: RUF012\n'),
      ("generator/neural_network.py", "                        selected_implementations[layer.idx] = versions[k]\n", "                        selected_implementations[layer.idx] = versions[k]\n                        if k == layer.name:\n                            self.default_implementations[k] = versions[k]\n")],
     '''
from dm import *
w = np.arange(-4, 5, dtype=np.float32).reshape(1, 1, 3, 3)
m = model([("Conv", ["X", "w"], ["Y"], dict(kernel_shape=[3, 3]))], [("X", (1, 1, 4, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"w": w})
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    onnx.save(m, d + "/m.onnx")
    texts = []
    for i, v in enumerate([None, {"Conv2D": "std_gemm_nn"}, None]):
        g = CodeGenerator(file=d + "/m.onnx", function_name="inference", nb_tests=1, test_dataset=np.zeros((1, 1, 16), np.float32), versions=v)
        g.generate_c_files(f"{d}/{i}")
        texts.append(Path(f"{d}/{i}/inference.c").read_text())
if texts[0] != texts[2]:
    print("the same generation gives another program after a generation with other implementations")
    sys.exit(1)
''')
