"""More planted bugs: C11, C12, C13, C19, C23."""
CMP = '''
for opt in (False, True):
    c, p = acetone(m, X, optimization=opt)
    same(f"C, optimization {opt}", c, want, 1e-4)
    same(f"python, optimization {opt}", p, want, 1e-4)
'''
seed("fifo-buffers", "C11", "optimization=True with a convolution whose batch normalisation or activation is fused, when another buffer is free",
     "freed buffers are reused in order of age, so that a fused layer, which takes the buffer of the layer it absorbs, writes over what it reads",
     [("graph/graph_interpretor.py", "                available_indexes.appendleft(indexes[p.idx])", "                available_indexes.append(indexes[p.idx])")],
     '''
from dm import *
k = {"kernel_shape": [1, 1]}
m = model([("Add", ["X", "s"], ["a"], {}), ("Conv", ["a", "w"], ["b"], k), ("BatchNormalization", ["b", "s1", "z", "z", "s1"], ["c"], {}), ("Conv", ["c", "w"], ["Y"], k)],
          [("X", (1, 2, 2, 2), T.FLOAT)], [("Y", (1, 2, 2, 2), T.FLOAT)],
          {"w": np.array([[1, -2], [3, .5]], np.float32).reshape(2, 2, 1, 1), "s1": np.array([1, 2], np.float32), "z": np.array([0, 1], np.float32), "s": np.ones((1, 2, 1, 1), np.float32)})
X = (np.arange(16).reshape(2, 1, 8) - 3).astype(np.float32)
want = ort(m, X, (1, 2, 2, 2))
''' + CMP)
seed("patches-last", "C13", "two im2col convolutions, the first of which unfolds more values than any other layer holds",
     "the buffer for the unfolded image is sized for the last convolution instead of the largest one",
     [("generator/neural_network.py", "                isinstance(layer, Conv2DStdGemm | Conv2DGemmTarget)\n                and layer.patches_size > self.patches_size_max\n", "                isinstance(layer, Conv2DStdGemm | Conv2DGemmTarget)\n                and layer.patches_size > 1\n")],
     '''
from dm import *
k = lambda a, b: np.ones((b, a, 3, 3), np.float32)
m = model([("Conv", ["X", "w"], ["a"], dict(kernel_shape=[3, 3], pads=[1, 1, 1, 1])), ("Conv", ["a", "v"], ["Y"], dict(kernel_shape=[3, 3], strides=[3, 3]))],
          [("X", (1, 2, 6, 6), T.FLOAT)], [("Y", None, T.FLOAT)], {"w": k(2, 1), "v": k(1, 1)})
X = np.ones((1, 1, 72), np.float32)
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    with contextlib.redirect_stdout(io.StringIO()):
        CodeGenerator(file=d + "/m.onnx", nb_tests=1, test_dataset=X, versions={"Conv2D": "std_gemm_nn"}).generate_c_files(d + "/g")
    b = subprocess.run("gcc -g -w -fsanitize=undefined,bounds -fno-sanitize-recover=all -o prog *.c -lm", shell=True, cwd=d + "/g", capture_output=True, text=True)
    if b.returncode:
        print(b.stderr[-1000:]); sys.exit(1)
    e = subprocess.run(["./prog", "out.txt"], cwd=d + "/g", capture_output=True, text=True)
    print(e.returncode, e.stderr[-300:])
    sys.exit(1 if e.returncode else 0)
''')
seed("hex-interior", "C12", "a double precision value with seven zeros inside its hexadecimal digits",
     "a run of seven zeros inside a hexadecimal literal is dropped",
     [("generator/neural_network.py", '''            return float.hex(float(d)).replace("0000000p", "p")''', '''            return float.hex(float(d)).replace("0000000", "")''')],
     '''
from dm import *
v = np.array([[1 + 2.0 ** -36, 3.5, -0.75, 1 / 3]])
m = model([("Add", ["X", "b"], ["Y"], {})], [("X", (1, 4), T.DOUBLE)], [("Y", (1, 4), T.DOUBLE)], {"b": v})
X = np.zeros((1, 1, 4))
with tempfile.TemporaryDirectory() as d:
    onnx.save(m, d + "/m.onnx")
    with contextlib.redirect_stdout(io.StringIO()):
        CodeGenerator(file=d + "/m.onnx", nb_tests=1, test_dataset=X).generate_c_files(d + "/g")
    r = subprocess.run(["make", "-s", "all"], cwd=d + "/g", capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-500:]); sys.exit(1)
    subprocess.run(["./inference" if os.path.exists(d + "/g/inference") else "./" + next(p.name for p in Path(d + "/g").iterdir() if os.access(p, os.X_OK)), "out.txt"], cwd=d + "/g", capture_output=True)
    got = [float.fromhex(x) for x in Path(d + "/g/out.txt").read_text().split()]
    print(got, v.ravel())
    sys.exit(got != list(v.ravel()))
''')
