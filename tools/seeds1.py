seed("im2row-dilation", "C01", "convolution version std_gemm_nt or std_gemm_tt (im2row patches) with dilation greater than 1 and kernel width greater than 1",
     "the im2row patch builder ignores the dilation on the width axis",
     [("templates/layers/Conv/template_im2row.c.tpl", "j_offset*{{dilation_rate}}", "j_offset")],
     '''
from dm import *
r = np.random.default_rng(1)
w = r.integers(-4, 5, (3, 2, 2, 2)).astype(np.float32)
m = model([("Conv", ["X", "w"], ["Y"], dict(kernel_shape=[2, 2], dilations=[2, 2]))], [("X", (1, 2, 5, 5), T.FLOAT)], [("Y", None, T.FLOAT)], {"w": w})
X = r.integers(-4, 5, (2, 1, 50)).astype(np.float32)
want = ort(m, X, (1, 2, 5, 5))
for v in ("std_gemm_nn", "std_gemm_nt", "std_gemm_tt"):
    c, p = acetone(m, X, versions={1: v})
    same(v, c, want)
''')
seed("same-width-residue", "C02", "auto_pad SAME_*, stride greater than 1 that divides neither length, and a non-square image whose two lengths leave different remainders",
     "'same' padding of the width uses the remainder of the height (C code and Python reference alike)",
     [("ir/layer.py", "filter_width - (in_width % strides), 0)", "filter_width - (in_height % strides), 0)")],
     '''
from dm import *
r = np.random.default_rng(1)
for H, W in ((4, 4), (6, 6), (4, 5)):
    m = model([("MaxPool", ["X"], ["Y"], dict(kernel_shape=[3, 3], strides=[3, 3], auto_pad="SAME_UPPER"))], [("X", (1, 1, H, W), T.FLOAT)], [("Y", None, T.FLOAT)])
    X = r.permutation(H * W).astype(np.float32).reshape(1, 1, -1)
    c, p = acetone(m, X)
    same(f"C {H}x{W}", c, ort(m, X, (1, 1, H, W)))
    same(f"python {H}x{W}", p, ort(m, X, (1, 1, H, W)))
''')
seed("min-broadcast-height", "C03", "a Min whose second operand broadcasts over the height while the first does not",
     "Minimum indexes the rows of every later operand with the height of the first operand",
     [("templates/layers/template_Broadcast.c.tpl", "= fmin(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}})",
       "= fmin(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height0}})")],
     '''
from dm import *
r = np.random.default_rng(1)
m = model([("ReduceMax", ["X"], ["b"], dict(axes=[2], keepdims=1)), ("Neg" if 0 else "Sub", ["X", "b"], ["d"], {}), ("Min", ["d", "b"], ["Y"], {})], [("X", (1, 2, 3, 4), T.FLOAT)], [("Y", None, T.FLOAT)])
X = r.integers(-9, 10, (3, 1, 24)).astype(np.float32)
c, p = acetone(m, X)
same("C", c, ort(m, X, (1, 2, 3, 4)))
''')
seed("concat-third", "C05", "a Concat of at least three operands with different lengths along the axis",
     "the offset of the third and later operands of a concatenation counts the length of the first operand again instead of the previous one",
     [("generator/layers/concatenate/ConcatenateDefault.py", "            borne_inf += self.input_shapes[k][self.axis]", "            borne_inf += self.input_shapes[0][self.axis]")],
     '''
from dm import *
r = np.random.default_rng(1)
m = model([("MaxPool", ["X"], ["a"], dict(kernel_shape=[2, 2], strides=[2, 2])), ("Relu", ["X"], ["b"], {}), ("ReduceMax", ["X"], ["s"], dict(axes=[1], keepdims=1)), ("Concat", ["s", "b", "X"], ["Y"], dict(axis=1))],
          [("X", (1, 2, 4, 4), T.FLOAT)], [("Y", None, T.FLOAT)])
m = model([("Relu", ["X"], ["b"], {}), ("ReduceMax", ["X"], ["s"], dict(axes=[1], keepdims=1)), ("Concat", ["s", "b", "X"], ["Y"], dict(axis=1))],
          [("X", (1, 2, 4, 4), T.FLOAT)], [("Y", None, T.FLOAT)])
X = r.permutation(32).astype(np.float32).reshape(1, 1, 32) - 16
c, p = acetone(m, X)
same("C", c, ort(m, X, (1, 2, 4, 4)))
''')
seed("edge-bottom", "C06", "edge padding at the bottom (after the last row) together with a different amount at the top",
     "edge padding repeats the last row from the wrong position on: the threshold uses the amount at the bottom instead of the top",
     [("generator/layers/padding/edge_pad/EdgePadDefault.py", 'mustach_hash["height_and_pad_top"] = self.input_shape[2] + self.pads[2]', 'mustach_hash["height_and_pad_top"] = self.input_shape[2] + self.pads[6]')],
     '''
from dm import *
for pads in ([0, 0, 1, 1, 0, 0, 1, 1], [0, 0, 2, 0, 0, 0, 1, 1], [0, 0, 0, 1, 0, 0, 2, 0]):
    m = model([("Pad", ["X", "p"], ["Y"], dict(mode="edge"))], [("X", (1, 2, 3, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"p": np.array(pads, np.int64)})
    X = np.arange(24, dtype=np.float32).reshape(1, 1, 24)
    c, p = acetone(m, X)
    same(f"C {pads}", c, ort(m, X, (1, 2, 3, 4)))
''')
seed("nearest-ceil", "C09", "nearest Resize with round_prefer_ceil in the generated code, a source coordinate exactly halfway between two samples",
     "round_prefer_ceil rounds halves down in the C code",
     [("generator/layers/resize/resize_nearest/ResizeNearest.py", 'return f"{x} = ceil(floor(2*{y})/2);"', 'return f"{x} = ceil({y} - 0.5);"')],
     '''
from dm import *
for nm in ("round_prefer_ceil", "round_prefer_floor"):
    m = model([("Resize", ["X", "", "s"], ["Y"], dict(mode="nearest", nearest_mode=nm, coordinate_transformation_mode="asymmetric"))], [("X", (1, 1, 4, 4), T.FLOAT)], [("Y", None, T.FLOAT)], {"s": np.array([1, 1, 2, 2], np.float32)})
    X = np.arange(16, dtype=np.float32).reshape(1, 1, 16)
    c, p = acetone(m, X)
    same(f"C {nm}", c, ort(m, X, (1, 1, 4, 4)))
''')
