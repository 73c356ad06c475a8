"""Demonstration helper: generate, build and run a small model, in a scratch directory, and compare with onnxruntime."""
import os, subprocess, sys, tempfile, contextlib, io
import numpy as np, onnx
from onnx import TensorProto as T, helper as h, numpy_helper as nh
from pathlib import Path
from acetone_nnet.generator.neural_network import CodeGenerator


def model(nodes, ins, outs, inits=None, opset=13):
    g = h.make_graph([h.make_node(op, i, o, name=o[0], **kw) for op, i, o, kw in nodes], "g",
                     [h.make_tensor_value_info(n, t, s) for n, s, t in ins], [h.make_tensor_value_info(n, t, s) for n, s, t in outs],
                     [nh.from_array(np.asarray(a), k) for k, a in (inits or {}).items()])
    m = h.make_model(g, opset_imports=[h.make_opsetid("", opset)])
    m.ir_version = 8
    return onnx.shape_inference.infer_shapes(m)


def ort(m, X, shape):
    import onnxruntime as rt
    s = rt.InferenceSession(m.SerializeToString(), providers=["CPUExecutionProvider"])
    return np.stack([np.asarray(s.run(None, {s.get_inputs()[0].name: x.reshape(shape)})[0]).ravel() for x in X])


def acetone(m, X, build=None, **kw):
    """(C outputs, Python outputs) of the generated program on the rows of X."""
    with tempfile.TemporaryDirectory() as d:
        src = m
        if isinstance(m, onnx.ModelProto):
            src = os.path.join(d, "model.onnx")
            onnx.save(m, src)
        out = Path(d) / "gen"
        with contextlib.redirect_stdout(io.StringIO()):
            g = CodeGenerator(file=src, function_name="inference", nb_tests=len(X), test_dataset=X, **kw)
            g.generate_c_files(out)
            py = np.atleast_2d(g.compute_inference(str(out))) if build != "c" else None
        r = subprocess.run(["make", "-s", "all"], cwd=out, capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[-2000:])
            sys.exit(1)
        r = subprocess.run(["./inference", "out.txt"], cwd=out, capture_output=True, text=True)
        if r.returncode:
            print("the program ended with", r.returncode, r.stderr[-500:])
            sys.exit(1)
        c = np.array([[float.fromhex(v) for v in l.split()] for l in (out / "out.txt").read_text().splitlines()])
        t = [[float.fromhex(v) if "x" in v else float(v) for v in l.replace("[", " ").replace("]", " ").replace("'", " ").split()] for l in (out / "output_python.txt").read_text().splitlines()]
        py = np.array([r for r in t if r])
        return c, py


def same(what, got, want, tol=1e-4):
    ok = got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol)
    print(what, "agrees" if ok else f"DIFFERS\n got  {got}\n want {want}")
    if not ok:
        sys.exit(1)
