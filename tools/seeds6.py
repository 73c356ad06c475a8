"""More planted bugs: C09, C16, C19, C23."""
seed("time-total", "C23", "debug_mode=\"time\" and more than one call of inference",
     "the total time of a call also counts the previous calls",
     [("templates/template_source_file.c.tpl", "    difference = 0;\n    select_evt", "    select_evt")],
     '''
from dm import *
m = model([("Relu", ["X"], ["a"], {}), ("Tanh", ["a"], ["Y"], {})], [("X", (1, 4), T.FLOAT)], [("Y", (1, 4), T.FLOAT)], {})
X = np.ones((2, 1, 4), np.float32)
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    with contextlib.redirect_stdout(io.StringIO()):
        CodeGenerator(file=d + "/m.onnx", nb_tests=2, test_dataset=X, debug_mode="time").generate_c_files(d + "/g")
    open(d + "/g/MMU.h", "w").write("")
    open(d + "/g/PMH.h", "w").write("static unsigned long long n; static void f(int c) {} \\n#define select_evt_counter f\\n#define event_track f\\n#define enable_evt_counter f\\n#define reset_evt_counter f\\nstatic unsigned long long read_evt_counter() { return ++n; }\\n")
    open(d + "/g/t.c", "w").write('#include "inference.h"\\nint main() { static inference_t c; float y[4], x[4] = {1}; inference(&c, y, x); inference(&c, y, x); return 0; }\\n')
    subprocess.run("gcc -w -o prog t.c inference.c global_vars.c parameters.c -lm", shell=True, cwd=d + "/g", check=True)
    out = subprocess.run(["./prog"], cwd=d + "/g", capture_output=True, text=True).stdout
    t = [l for l in out.splitlines() if "total" in l]
    n = [l for l in out.splitlines() if l.startswith("time") and "total" not in l]
    print(t, len(n))
    sys.exit(0 if len(t) == 2 and all(int(l.split(":")[1]) == len(n) // 2 for l in t) else 1)
''')
seed("compare-threshold", "C16", "values below 2e-16 that differ",
     "results that differ by less than the machine epsilon of 1 are equal, however small they are",
     [("cli/compare.py", "abs_th: float = sys.float_info.min", "abs_th: float = sys.float_info.epsilon")],
     '''
from dm import *
from acetone_nnet.cli.compare import compare_files
with tempfile.TemporaryDirectory() as d:
    for n, v in (("a", 1e-17), ("b", 9e-17)):
        open(d + "/" + n, "w").write(float(v).hex() + "\\n")
    r = [compare_files(d + "/a", d + "/b", 1, p)[0] for p in ("float", "double")]
    print(r)
    sys.exit(1 if any(r) else 0)
''')
seed("quant-saturate", "C19", "a shifted result that is out of the range of the integer type",
     "the Python results saturate where the generated code keeps the low bits",
     [("quantize/activation.py", "out1 = out.astype(self.pytype)", "out1 = np.clip(out, np.iinfo(self.pytype).min, np.iinfo(self.pytype).max).astype(self.pytype)")],
     '''
from dm import *
import json
os.chdir(tempfile.mkdtemp())
Path("AVX512VNNI.json").write_text(json.dumps({"name": "T", "cflags": "-O1", "quantization": {"dtype": "signed char", "temp_dtype": "int", "pydtype": "int8", "temp_pydtype": "int32",
    "layers": {"X": {"out": "Q4.3"}, "Y": {"params": "Q4.3", "in": "Q4.3", "out": "Q4.3"}, "w": {"out": "Q4.3"}}}}))
m = model([("MatMul", ["X", "w"], ["Y"], {})], [("X", (1, 1, 1, 2), T.FLOAT)], [("Y", (1, 1, 1, 2), T.FLOAT)], {"w": np.array([[[[7, 1], [7, 1]]]], np.float32)})
X = np.array([[[1, 2]], [[127, 127]]], np.int8)
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    onnx.save(m, d + "/m.onnx")
    g = CodeGenerator(file=d + "/m.onnx", function_name="inference", nb_tests=2, test_dataset=X, target="AVX512VNNI")
    py = g.compute_inference(d)
same("python", np.array(py).reshape(1, 2), np.array([[127 * 112 >> 3, 127 * 16 >> 3]]).astype(np.int8))
''')
seed("resize-pytorch-one", "C09", "pytorch_half_pixel with an output of a single row or column",
     "a single row is placed at the middle of the input instead of on its first row",
     [("generator/layers/resize/Resize.py", "        if target_length > 1:\n            s +=", "        if target_length > 0:\n            s +="),
      ("generator/layers/resize/Resize.py", "        if target_length > 1:\n            return", "        if target_length > 0:\n            return")],
     '''
from dm import *
m = model([("Resize", ["X", "", "", "z"], ["Y"], dict(mode="linear", coordinate_transformation_mode="pytorch_half_pixel"))], [("X", (1, 1, 4, 3), T.FLOAT)], [("Y", (1, 1, 1, 3), T.FLOAT)],
          {"z": np.array([1, 1, 1, 3], np.int64)})
X = np.arange(12).astype(np.float32).reshape(1, 1, 12)
want = ort(m, X, (1, 1, 4, 3))
c, p = acetone(m, X)
same("C", c, want, 1e-5)
same("python", p, want, 1e-5)
''')
