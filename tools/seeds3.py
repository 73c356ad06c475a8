seed("broadcast-third", "C03", "an element-wise operator of three computed operands, the third of which has another height than the second",
     "the third operand is read with the height of the second one",
     [("generator/layers/broadcast/Broadcast.py", 'previous_dict["input_height"] = self.input_shapes[k][2]', 'previous_dict["input_height"] = self.input_shapes[min(k, 1)][2]')],
     '''
from dm import *
m = model([("Relu", ["X"], ["a"], {}), ("ReduceMax", ["a"], ["b"], dict(axes=[2], keepdims=1)), ("Max", ["X", "a", "b"], ["Y"], {})],
          [("X", (1, 2, 3, 2), T.FLOAT)], [("Y", None, T.FLOAT)])
X = np.random.default_rng(0).integers(-9, 9, (3, 1, 12)).astype(np.float32)
want = ort(m, X, (1, 2, 3, 2))
c, p = acetone(m, X)
same("C", c, want)
same("python", p, want)
''')
seed("bn-epsilon", "C07", "a BatchNormalization whose epsilon has significant digits below 1e-6",
     "epsilon is written with six decimals in the C code",
     [("generator/layers/batch_normalization/BatchNormalizationDefault.py", 'mustach_hash["epsilon"] = self.epsilon', 'mustach_hash["epsilon"] = f"{self.epsilon:.6f}"')],
     '''
from dm import *
z = np.zeros(2, np.float32)
m = model([("BatchNormalization", ["X", "s", "b", "m", "v"], ["Y"], dict(epsilon=3e-7))], [("X", (1, 2, 2, 2), T.FLOAT)], [("Y", None, T.FLOAT)],
          {"s": z + 1, "b": z, "m": z, "v": np.array([1e-7, 1], np.float32)})
X = np.arange(16, dtype=np.float32).reshape(2, 1, 8)
want = ort(m, X, (1, 2, 2, 2))
c, p = acetone(m, X)
same("C", c, want, 1e-3)
same("python", p, want, 1e-3)
''')
seed("debug-transpose", "C23", "debug mode of a network in channels_last order whose layer has a height and a width that differ",
     "a layer of the C code is put in the order width, height, channel",
     [("debug/debug_tools.py", "line = np.transpose(line, (1, 2, 0))", "line = np.transpose(line, (2, 1, 0))")],
     '''
from dm import *
import json
from acetone_nnet.debug.debug_tools import extract_outputs_c
with tempfile.TemporaryDirectory() as d:
    f = d + "/o.txt"
    v = np.arange(24)
    open(f, "w").write("Conv2D 1 1 2 3 4\\n" + " ".join(map(str, v)) + " \\n")
    out, _ = extract_outputs_c(f, "float", 1)
    want = v.reshape(2, 3, 4).transpose(1, 2, 0).ravel()
    print(out[0], want)
    sys.exit(not np.array_equal(np.ravel(out[0]), want))
''')
seed("train-hook-biases", "C14", "a network with a layer whose biases are fewer than its outputs (a convolution)",
     "the training hook copies as many biases as the layer has outputs",
     [("generator/neural_network.py", "                sizes.append(layer.nb_biases)\n", "                sizes.append(layer.size)\n")],
     '''
from dm import *
m = model([("Conv", ["X", "w", "b"], ["Y"], dict(kernel_shape=[2, 2]))], [("X", (1, 1, 4, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"w": np.ones((2, 1, 2, 2), np.float32), "b": np.arange(2, dtype=np.float32)})
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    with contextlib.redirect_stdout(io.StringIO()):
        CodeGenerator(file=d + "/m.onnx", nb_tests=1, test_dataset=np.zeros((1, 1, 16), np.float32)).generate_c_files(d + "/g")
    import re
    t = open(d + "/g/train_hook.c").read()
    got = re.findall(r"biases\\w*,\\s*model_\\w+,\\s*(\\d+)", t)
    print(got)
    sys.exit(any(int(n) > 2 for n in got))
''')
seed("dataset-one-more", "C25", "a dataset file of more rows than nb_tests",
     "one row more than nb_tests is used",
     [("generator/neural_network.py", "                if i >= nb_tests:\n", "                if i > nb_tests:\n")],
     '''
from dm import *
m = model([("Relu", ["X"], ["Y"], {})], [("X", (1, 2), T.FLOAT)], [("Y", None, T.FLOAT)])
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    open(d + "/t.txt", "w").write("".join(f"[{i}.0, {i}.5]\\n" for i in range(5)))
    with contextlib.redirect_stdout(io.StringIO()):
        g = CodeGenerator(file=d + "/m.onnx", nb_tests=3, test_dataset=d + "/t.txt")
        r = np.asarray(g.compute_inference(d))
    print(g.nb_tests, len(g.test_dataset))
    sys.exit(g.nb_tests != 3 or len(g.test_dataset) != 3)
''')
seed("gather-elements-negative", "C05", "a GatherElements with negative indices and fewer indices than elements along its axis",
     "negative indices count from the length of the output",
     [("importers/ONNX_importer/create_layer.py", '''            indices[i] = input_shape[attributes["axis"]] - abs(indices[i])
    while''', '''            indices[i] = output_shape[attributes["axis"]] - abs(indices[i])
    while''')],
     '''
from dm import *
m = model([("GatherElements", ["X", "i"], ["Y"], dict(axis=1))], [("X", (1, 5), T.FLOAT)], [("Y", None, T.FLOAT)], {"i": np.array([[-1, 2, -5, -3]], np.int64)})
X = np.arange(5, dtype=np.float32).reshape(1, 1, 5)
want = ort(m, X, (1, 5))
try:
    c, p = acetone(m, X)
except SystemExit:
    raise
except Exception as e:
    print("failed", e)
    sys.exit(1)
same("C", c, want)
same("python", p, want)
''')
seed("torch-bn-eps", "C17", "a PyTorch network with a BatchNorm2d whose eps is not the default one",
     "the fused batch normalisation uses an epsilon of 1e-5",
     [("importers/PYTORCH_importer/parse_pytorch.py", "bn_eps = node.args[7]", "bn_eps = 1e-5")],
     '''
from dm import *
import torch
torch.manual_seed(0)
n = torch.nn.Sequential(torch.nn.Conv2d(1, 2, 2), torch.nn.BatchNorm2d(2, eps=0.5)).eval()
x = torch.randn(1, 1, 4, 4)
e = torch.export.export(n, (x,))
c, p = acetone(e, x.numpy().reshape(1, 1, 16))
want = n(x).detach().numpy().reshape(1, -1)
same("C", c, want)
same("python", p, want)
''')
seed("im2row-left", "C01", "a convolution with the version std_gemm_nt or std_gemm_tt whose top and left paddings differ",
     "the patches are built with the top padding on the left",
     [("generator/layers/convolution/Conv2DStdGemm.py", """        mustach_hash["pad_left"] = self.pad_left
        mustach_hash["input_height"] = self.input_height
        mustach_hash["input_width"] = self.input_width
        mustach_hash["road"] = self.path
        mustach_hash["patches_width"] = self.patches_width
        mustach_hash["output_str"] = output_str

        with open(self.template_path / "layers" / "Conv" / "template_im2row.c.tpl")""", """        mustach_hash["pad_left"] = self.pad_top
        mustach_hash["input_height"] = self.input_height
        mustach_hash["input_width"] = self.input_width
        mustach_hash["road"] = self.path
        mustach_hash["patches_width"] = self.patches_width
        mustach_hash["output_str"] = output_str

        with open(self.template_path / "layers" / "Conv" / "template_im2row.c.tpl")""")],
     '''
from dm import *
w = np.arange(-4, 5, dtype=np.float32).reshape(1, 1, 3, 3)
X = np.arange(32, dtype=np.float32).reshape(2, 1, 16)
for pads in ([1, 1, 1, 1], [2, 1, 1, 1], [0, 1, 0, 2]):
    m = model([("Conv", ["X", "w"], ["Y"], dict(pads=pads, kernel_shape=[3, 3]))], [("X", (1, 1, 4, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"w": w})
    want = ort(m, X, (1, 1, 4, 4))
    for v in ("6loops", "std_gemm_nn", "std_gemm_nt", "std_gemm_tt"):
        c, p = acetone(m, X, versions={"Conv2D": v})
        same("C " + v, c, want)
''')
seed("depthwise-one", "C21", "generated code in channels_last order with a convolution of one channel to several filters",
     "a convolution of one channel is taken for a depth-wise one",
     [("generator/layers/convolution/Conv2Ddirect_block.py", "if self.nb_filters == self.input_channels and self.group == self.nb_filters:", "if self.group == self.input_channels:")],
     '''
from dm import *
w = np.random.default_rng(0).integers(-3, 4, (3, 1, 2, 2)).astype(np.float32)
m = model([("Conv", ["X", "w"], ["Y"], dict(kernel_shape=[2, 2]))], [("X", (1, 1, 4, 3), T.FLOAT)], [("Y", None, T.FLOAT)], {"w": w})
X = np.random.default_rng(1).integers(-3, 4, (2, 1, 12)).astype(np.float32)
want = ort(m, X, (1, 1, 4, 3))
c, p = acetone(m, X, gen_data_format="channels_last", versions={"Conv2D": "direct_block"})
same("C", c, want)
''')
seed("transpose-default", "C20", "a Transpose without its optional attribute perm",
     "without perm, the last two axes are exchanged instead of the axes reversed",
     [("importers/ONNX_importer/create_layer.py", """        perm=attributes["perm"],""", """        perm=attributes.get("perm", [0, 1, 3, 2]),""")],
     '''
from dm import *
X = np.arange(24, dtype=np.float32).reshape(1, 1, 24)
m = model([("Transpose", ["X"], ["a"], {}), ("Relu", ["a"], ["Y"], {})], [("X", (1, 2, 3, 4), T.FLOAT)], [("Y", None, T.FLOAT)])
want = ort(m, X, (1, 2, 3, 4))
try:
    c, p = acetone(m, X)
except SystemExit:
    raise
except Exception as e:
    print("refused", type(e), e)
    sys.exit(0)
same("C", c, want)
same("python", p, want)
''')
