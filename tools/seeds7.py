"""More planted bugs: C14, C17."""
seed("same-shift", "C17", "padding \"same\" with a stride of at least three and a smaller kernel",
     "the padding is negative and the kernel is applied to other elements",
     [("ir/layer.py", "pad_along_height = max(filter_height - (in_height % strides), 0)", "pad_along_height = filter_height - (in_height % strides)"),
      ("ir/layer.py", "pad_along_width = max(filter_width - (in_width % strides), 0)", "pad_along_width = filter_width - (in_width % strides)")],
     '''
from dm import *
import json
W = np.array([2.0])
L = [{"class_name": "InputLayer", "config": {"name": "in", "dtype": "float32", "size": 25, "input_shape": [None, 1, 5, 5], "output_shape": [None, 1, 5, 5], "idx": 0, "prev_layer_idx": []}},
     {"class_name": "Conv2D", "weights": [[[[2.0]]]], "biases": [1.0], "config": {"name": "c", "dtype": "float32", "idx": 1, "prev_layer_idx": [0], "filters": 1, "kernel_size": [1, 1], "strides": [3, 3],
      "dilation_rate": [1, 1], "padding": "same", "activation": "linear", "size": 4, "input_shape": [None, 1, 5, 5], "output_shape": [None, 1, 2, 2]}}]
X = np.arange(25).astype(np.float32).reshape(1, 1, 25)
with tempfile.TemporaryDirectory() as d:
    Path(d, "net.json").write_text(json.dumps({"class_name": "Functional", "config": {"data_format": "channels_first", "layers": L}}))
    c, p = acetone(d + "/net.json", X)
want = X.reshape(5, 5)[::3, ::3].reshape(1, 4) * 2 + 1
same("C", c, want, 1e-5)
same("python", p, want, 1e-5)
''')
seed("batch-multiple", "C14", "batch_loop() on a number of inputs that is a multiple of the size of a batch",
     "the last batch is not executed",
     [("templates/template_train_hook_file.c.tpl", "j + MAX_BATCH_SIZE > batch_size ?", "j + MAX_BATCH_SIZE >= batch_size ?")],
     '''
from dm import *
m = model([("Tanh", ["X"], ["Y"], {})], [("X", (1, 1, 1, 3), T.FLOAT)], [("Y", (1, 1, 1, 3), T.FLOAT)], {})
X = np.linspace(-2, 2, 64 * 3).astype(np.float32).reshape(64, 1, 3)
with tempfile.TemporaryDirectory() as d:
    out = Path(d) / "gen"
    with contextlib.redirect_stdout(io.StringIO()):
        onnx.save(m, d + "/m.onnx")
        CodeGenerator(file=d + "/m.onnx", function_name="inference", nb_tests=64, test_dataset=X).generate_c_files(out)
    subprocess.run(["make", "-s", "all"], cwd=out, check=True)
    code = """
import ctypes, sys, numpy as np
L = ctypes.CDLL(sys.argv[1]); X = np.linspace(-2, 2, 192).astype(np.float32)
for n in (1, 31, 32, 33, 64):
    Y = np.zeros(192, np.float32)
    L.batch_loop(Y.ctypes.data_as(ctypes.c_void_p), X.ctypes.data_as(ctypes.c_void_p), n)
    if not np.allclose(Y[:3 * n], np.tanh(X[:3 * n]), atol=1e-5):
        print(n, "inputs: wrong"); sys.exit(1)
"""
    sys.exit(subprocess.run([sys.executable, "-c", code, str(out / "inference.so")]).returncode)
''')
