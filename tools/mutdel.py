"""Deletion campaign (development only): python3 tools/mutdel.py RUN FILE PROPS [max] [shard/of]   deletes statements, conjuncts, keyword arguments or template lines of FILE, one at a time, in a private mount
namespace, and runs the checks, stopping at the first violation."""
import ast, json, os, random, re, shutil, subprocess, sys, time
from pathlib import Path
SRC = Path("/repo/src/acetone_nnet")


FN = {  # function of a large file -> checks
    "generator/neural_network.py": {"__init__": "C15,C24,C19,C23,C21,C18", "select_generation_functions": "C24", "<lambda>": "C24,C14", "select_layers_implementation": "C24", "load_debug_target": "C23", "_initialise_dataset": "C25,C19", "_load_dataset": "C25", "generate_train_hook_file": "C14",
        "_spatial_shape": "C21,C23", "check_data_format": "C21", "same_in_both": "C21", "compute_inference": "C14,C25,C23,C21,C15", "gather_inputs": "C10,C14", "data2c": "C12,C14,C19", "c2data": "C25,C16", "flatten_array_order_c": "C12,C14", "flatten_array": "C12,C14",
        "generate_test_dataset_header_file": "C14,C12", "generate_test_dataset_value_file": "C14,C12,C25", "generate_main_file": "C14,C12", "_get_makefile_properties": "C24,C14", "flags": "C24,C14", "generate_makefile": "C14,C24,C15", "generate_c_files": "C15,C24", "generate_target_file": "C15,C19", "generate_target_header_file": "C15,C19",
        "generate_function_source_file": "C14,C13,C23,C21,C19,C18,C03", "gather_indices_to_str": "C13,C05", "generate_function_header_file": "C13,C14,C12,C11", "quantize_layers": "C19", "generate_bin_parameter_file": "C12,C14,C19,C24", "align_up": "C12,C14", "generate_parameter_file": "C12,C14,C24", "generate_globalvars_file": "C13,C14,C19"},
    "importers/ONNX_importer/create_layer.py": {"create_resize_obj": "C09", "create_pad_obj": "C06", "create_input_layer": "C21,C20", "create_initializer_layer": "C03,C05,C20", "create_softmax": "C07", "create_conv": "C01", "create_concat": "C05", "resize_set_default_attributes_values": "C09", "create_resize": "C09", "create_pad": "C06",
        "create_gather": "C05", "create_gather_elements": "C05", "create_gemm": "C04", "create_lstm": "", "matmul_compute_shape": "C04", "create_matmul": "C04", "create_batch_norm": "C07", "create_transpose": "C05", "create_tile": "C05", "create_reduce_sum": "C07", "create_reduce_max": "C07", "create_reduce_min": "C07",
        "create_reduce_mean": "C07", "create_reduce_prod": "C07", "create_max_pool": "C02", "create_average_pool": "C02", "create_global_average_pool": "C02", "_collect_node_inputs": "C03", "_broadcast_input_shapes": "C03", "create_add": "C03", "create_div": "C03", "create_mul": "C03", "create_sub": "C03", "create_max": "C03",
        "create_min": "C03", "create_avg": "C03", "instantiate_activation_layer": "C08", "create_activation_layer": "C08", "bypass": "C20", "create_dropout": "C20", "fuse_relu": "", "fuse_tanh": "", "fuse_sigmoid": "", "fuse_exp": "", "fuse_log": "", "fuse_clip": "", "fuse_leaky_relu": "", "fuse_batch_normalization": ""},
}


def function_of(f, line):
    best = None
    for n in ast.walk(ast.parse((SRC / f).read_text())):
        if isinstance(n, ast.FunctionDef) and n.lineno <= line <= n.end_lineno and (best is None or n.lineno > best.lineno):
            best = n
    return best.name if best else ""


def edits(f):
    t = (SRC / f).read_text()
    L = t.split("\n")
    out = []
    if not f.endswith(".py"):
        for i, l in enumerate(L):
            s = l.strip()
            if s and not s.startswith(("//", "*", "/*", "#include", "{{/")) and s not in "{}" and "{{#" not in s:
                out.append((i + 1, "del " + s, "\n".join(L[:i] + L[i + 1:])))
        return out
    off = [0]
    for l in L:
        off.append(off[-1] + len(l.encode()) + 1)
    b = t.encode()

    def cut(n, new):
        s, e = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
        return (b[:s] + new.encode() + b[e:]).decode(), b[s:e].decode()
    tree = ast.parse(t)

    def walk(n, infn):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                if getattr(c, "name", "") in ("__repr__", "__str__"):
                    continue
                walk(c, True)
                continue
            if infn:
                if isinstance(c, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
                    new, old = cut(c, "pass")
                    if not re.match(r"logging|msg|print|raise|self\.check|check", old):
                        out.append((c.lineno, "del " + old[:100], new))
                if isinstance(c, ast.If) and not any(isinstance(x, ast.Raise) for x in c.body):
                    for v in ("True", "False"):
                        new, old = cut(c.test, v)
                        out.append((c.lineno, f"if {v}: " + old[:100], new))
                if isinstance(c, ast.IfExp):
                    for v in (c.body, c.orelse):
                        s = ast.unparse(v)
                        new, old = cut(c, "(" + s + ")")
                        out.append((c.lineno, f"ifexp {s[:40]}: " + old[:100], new))
                if isinstance(c, ast.BoolOp):
                    for k in range(len(c.values)):
                        rest = [ast.unparse(v) for j, v in enumerate(c.values) if j != k]
                        new, old = cut(c, "(" + (" and " if isinstance(c.op, ast.And) else " or ").join(f"({r})" for r in rest) + ")")
                        out.append((c.lineno, f"drop {k} of: " + old[:100], new))
                if isinstance(c, ast.Call) and len(c.args) > 0 and isinstance(c.func, ast.Name) and c.func.id in ("sorted", "list", "set", "abs", "max", "min", "str", "int", "float", "reversed", "tuple"):
                    new, old = cut(c, "(" + ast.unparse(c.args[0]) + ")")
                    out.append((c.lineno, "uncall " + old[:100], new))
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("copy", "astype", "flatten", "ravel", "reshape", "transpose", "strip", "squeeze", "lower", "items"):
                    new, old = cut(c, "(" + ast.unparse(c.func.value) + ")")
                    out.append((c.lineno, "uncall " + old[:100], new))
            walk(c, infn)
    walk(tree, False)
    good = []
    for i, d, n in out:
        try:
            ast.parse(n)
        except SyntaxError:
            continue
        if n != t:
            good.append((i, d, n))
    return good


def run(f, props, limit, shard=(0, 1)):
    ms = edits(f)
    random.Random(f).shuffle(ms)
    ms = ms[shard[0]::shard[1]]
    res = []
    log = Path("/tmp/md/log.jsonl")
    done = {(j["file"], j["line"], j["what"]) for j in map(json.loads, log.open())} if log.exists() else set()
    for i, what, new in ms:
        if len(res) >= limit:
            break
        if (f, i, what) in done:
            continue
        D = Path(f"/tmp/md/run{os.getpid()}")
        shutil.rmtree(D, ignore_errors=True)
        shutil.copytree("/repo/src", D / "src", ignore=shutil.ignore_patterns("__pycache__"))
        (D / "ev").mkdir()
        (D / "src/acetone_nnet" / f).write_text(new)
        killed, t0, why = None, time.time(), ""
        mine = props
        if f in FN:
            e = FN[f].get(function_of(f, i), props)
            mine = e.split(",") if isinstance(e, str) else e
            if mine == [""] or f.endswith("neural_network.py") and 203 <= i <= 258:
                continue
        for P in mine:
            r = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {D}/src /repo/src; mount --bind /tmp/vcopy /verif; mount --bind {D}/ev /verif/evidence; cd /verif; ACX_FIRST=1 timeout 600 ./check {P}"], capture_output=True, text=True)
            if r.returncode:
                killed = P
                why = [l for l in r.stdout.splitlines() if l.startswith(("FIRST", "VIOL", "    case"))][:2] or r.stderr[-200:]
                break
        j = dict(file=f, line=i, what=what, killed=killed, why=str(why)[:200], t=round(time.time() - t0))
        res.append(j)
        log.open("a").write(json.dumps(j) + "\n")
        if not killed:
            print("SURVIVED", f, i, "|", what.replace("\n", " "), j["t"], flush=True)
    print(f, "edits", len(res), "killed", sum(j["killed"] is not None for j in res), flush=True)
    shutil.rmtree(f"/tmp/md/run{os.getpid()}", ignore_errors=True)


if sys.argv[1] == "LIST":
    for p in sorted([*SRC.rglob("*.py"), *SRC.rglob("*.tpl")]):
        print(p.relative_to(SRC), len(edits(str(p.relative_to(SRC)))))
else:
    run(sys.argv[2], sys.argv[3].split(","), int(sys.argv[4]) if len(sys.argv) > 4 else 20, tuple(map(int, sys.argv[5].split("/"))) if len(sys.argv) > 5 else (0, 1))
