"""Core of the checking machinery: drives the real generator, compiles what it
emits, executes it from several initial memory states, and reports.

Nothing here reads the text of the generated code or of /repo: only what the
public API returns and what the compiled program computes is judged.
"""
from __future__ import annotations

import concurrent.futures as cf
import concurrent.futures.process
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
LIB = VERIF / "lib"
REPO = Path(os.environ.get("ACX_REPO", "/repo"))

for _k, _v in {
    "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "", "TF_ENABLE_ONEDNN_OPTS": "0",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
}.items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True
sys.path.insert(0, str(REPO / "src"))
NPROC = int(os.environ.get("ACX_NPROC", "8"))

CTYPES = {"float": "f4", "double": "f8", "int": "i4", "short": "i2", "long int": "i8",
          "int8_t": "i1", "int16_t": "i2", "int32_t": "i4", "char": "i1"}


@contextlib.contextmanager
def quiet():
    """Silence fd 1 and 2 (the generator prints, TF logs)."""
    sys.stdout.flush(); sys.stderr.flush()
    s1, s2 = os.dup(1), os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1); os.dup2(dn, 2)
    try:
        yield
    finally:
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(s1, 1); os.dup2(s2, 2)
        for f in (s1, s2, dn):
            os.close(f)


def import_target():
    with quiet():
        import acetone_nnet  # noqa: F401
    import acetone_nnet
    p = Path(acetone_nnet.__file__).resolve()
    if not str(p).startswith(str(REPO.resolve()) + os.sep):
        raise SystemExit(f"acetone_nnet was imported from {p}, not from {REPO}")
    return acetone_nnet


# --------------------------------------------------------------------------- models

def onnx_model(nodes, inputs, outputs, inits=(), opset=13, value_info=(), name="g"):
    import onnx
    from onnx import TensorProto as T, helper as h, numpy_helper as nh
    def vi(x):
        n, s = x[0], x[1]
        t = x[2] if len(x) > 2 else T.FLOAT
        return h.make_tensor_value_info(n, t, list(s))
    g = h.make_graph(list(nodes), name, [vi(i) for i in inputs], [vi(o) for o in outputs],
                     [nh.from_array(a, n) for n, a in dict(inits).items()],
                     value_info=[vi(v) for v in value_info])
    m = h.make_model(g, opset_imports=[h.make_opsetid("", opset)])
    m.ir_version = 8
    return m


def node(op, ins, outs, **kw):
    from onnx import helper as h
    return h.make_node(op, list(ins), list(outs), name=kw.pop("name", f"{op}_{outs[0]}"), **kw)


def ort_run(model, X, shape, in_name=None, out=None):
    """Reference: the model executed by onnxruntime with optimisations off."""
    import numpy as np
    import onnxruntime as ort
    so = ort.SessionOptions()
    so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    so.intra_op_num_threads = 1
    so.inter_op_num_threads = 1
    so.log_severity_level = 4
    s = ort.InferenceSession(model.SerializeToString(), so, providers=["CPUExecutionProvider"])
    nm = in_name or s.get_inputs()[0].name
    return np.stack([s.run(None if out is None else [out], {nm: x.reshape(shape)})[0].reshape(-1) for x in X])


# ------------------------------------------------------------------ generate / compile / run

class Bad(Exception):
    """A stage failed: .stage and .msg."""
    def __init__(self, stage, msg):
        super().__init__(f"{stage}: {msg}")
        self.stage, self.msg = stage, msg


def _short(e):
    return f"{type(e).__name__}: {str(e).strip()}"[:300]


def make_generator(model, X, **kw):
    import numpy as np  # noqa: F401
    from acetone_nnet import CodeGenerator
    try:
        return CodeGenerator(model, nb_tests=len(X), test_dataset=X, **kw)
    except Exception as e:  # noqa: BLE001
        raise Bad("import", _short(e)) from e


def gen_files(gen, d):
    try:
        gen.generate_c_files(d)
    except Exception as e:  # noqa: BLE001
        raise Bad("codegen", _short(e)) from e


def py_reference(gen, d):
    """All the output lines of compute_inference, decoded."""
    import numpy as np
    try:
        last = gen.compute_inference(str(d))
    except Exception as e:  # noqa: BLE001
        raise Bad("python", _short(e)) from e
    rows = []
    for line in (Path(d) / "output_python.txt").read_text().splitlines():
        rows.append([float(w) if "." in w and "x" not in w else gen.c2data(w) for w in line.split()])
    try:
        a = np.array(rows, dtype=np.float64)
    except ValueError as e:
        raise Bad("python", f"ragged output {_short(e)}") from e
    return a, last


def compile_c(d, ctype="float", fname="inference", sources=("inference.c", "global_vars.c", "parameters.c"),
              flags=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
              driver=None, extra=(), out="drv", cc="gcc"):
    d = Path(d)
    drv = Path(driver or LIB / "driver.c")
    base = [cc, "-w", "-g0", *flags, f"-I{d}", f"-DT={ctype}", f"-Dinference={fname}" if fname != "inference" else "-DX_", *extra]
    (d / "acx_all.c").write_text("".join(f'#include "{s}"\n' for s in (*sources, str(drv))))
    r = subprocess.run([*base, "-o", str(d / out), str(d / "acx_all.c"), "-lm"], capture_output=True, text=True, timeout=300)
    if r.returncode:
        r = subprocess.run([*base, "-o", str(d / out), *[str(d / s) for s in sources], str(drv), "-lm"],
                           capture_output=True, text=True, timeout=300)
    if r.returncode:
        errs = [l for l in r.stderr.splitlines() if "error" in l or "undefined" in l]
        raise Bad("compile", (errs or r.stderr.splitlines() or ["?"])[0][-250:])
    return d / out


SAN_ENV = {**os.environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "print_stacktrace=0"}


def run_exe(cmd, timeout=60, env=None):
    try:
        r = subprocess.run([str(c) for c in cmd], capture_output=True, timeout=timeout * SLOW, env=env or SAN_ENV)
    except subprocess.TimeoutExpired:
        raise Bad("run", "timeout") from None
    if r.returncode:
        err = r.stderr.decode(errors="replace")
        lines = [l for l in err.splitlines() if "runtime error" in l or "ERROR: AddressSanitizer" in l or "DRIVER" in l]
        raise Bad("run", f"exit {r.returncode} {(lines or [''])[0][-220:]}")
    return r


def run_c(exe, d, X, osize, ctype="float"):
    """-> array (3 memory states, N, osize); raises Bad on any difference or crash."""
    import numpy as np
    d = Path(d)
    dt = np.dtype(CTYPES[ctype])
    Xc = np.ascontiguousarray(np.asarray(X).reshape(len(X), -1).astype(dt))
    (d / "in.bin").write_bytes(Xc.tobytes())
    run_exe([exe, d / "in.bin", d / "out.bin", len(X), Xc.shape[1], osize])
    count("c_executions", 3 * len(X))
    raw = np.frombuffer((d / "out.bin").read_bytes(), dtype=np.uint8)
    rec = osize * dt.itemsize + 1
    raw = raw.reshape(3, len(X), rec)
    out = np.ascontiguousarray(raw[:, :, :-1]).view(dt).reshape(3, len(X), osize)
    bits = raw[:, :, :-1]
    nan = [np.isnan(o.astype(np.float64)) for o in out]
    for p in (1, 2):
        diff = (bits[0] != bits[p]).reshape(len(X), osize, dt.itemsize).any(-1) & ~(nan[0] & nan[p])
        if diff.any():
            r, k = np.argwhere(diff)[0]
            raise Bad("state", f"result depends on previous memory contents: run {r} element {k}: {out[0, r, k]} vs {out[p, r, k]}")
    if not raw[:, :, -1].all():
        raise Bad("input-modified", "the caller's input buffer was modified")
    return out[0]


def mismatch(got, want, rtol=0.0, atol=0.0, what=""):
    import numpy as np
    got, want = np.asarray(got, np.float64), np.asarray(want, np.float64)
    if got.shape != want.shape:
        return f"{what} shape {got.shape} != {want.shape}"
    with np.errstate(all="ignore"):
        ok = (np.abs(got - want) <= atol + rtol * np.abs(want)) | (got == want) | (np.isnan(got) & np.isnan(want))
    if ok.all():
        return None
    i = tuple(int(v) for v in np.argwhere(~ok)[0])
    return f"{what} {int((~ok).sum())}/{ok.size} elements differ, first at {i}: got {got[i]!r} expected {want[i]!r}"


_STATS = {}


def count(key, n=1):
    """Add to a per-case counter that the check sums into its evidence."""
    _STATS[key] = _STATS.get(key, 0) + n


def product(prefix="", keep=None, **axes):
    """Full cartesian product of the axes -> [(case id, params)], filtered by keep(**params)."""
    import itertools
    out = []
    for combo in itertools.product(*axes.values()):
        p = dict(zip(axes, combo))
        if keep is None or keep(**p):
            out.append((prefix + ",".join(f"{k}={_cid(v)}" for k, v in p.items()), p))
    return out


def _cid(v):
    if isinstance(v, (tuple, list)):
        return "x".join(_cid(i) for i in v)
    return str(v)


def union(*lists):
    """Concatenate case lists, dropping cases whose parameters were already listed."""
    seen, out = set(), []
    for l in lists:
        for cid, p in l:
            k = json.dumps(p, sort_keys=True, default=str)
            if k not in seen:
                seen.add(k)
                out.append((cid, p))
    return out


class scratch:
    base = None

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="acx_", dir=scratch.base)
        return Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def three_way(model, X, shape, *, want=None, versions=None, rtol=0.0, atol=0.0, gen_kw=None, ctype=None,
              py=True, c=True, in_name=None):
    """Compare reference / Python / C on every row of X. -> list of (aspect, message)."""
    import numpy as np
    fails = []
    if want is None:
        want = ort_run(model, X, shape, in_name)
    count("programs")
    if np.unique(want).size > 1:
        count("nontrivial")
    kw = dict(gen_kw or {})
    if versions:
        kw["versions"] = versions
    with scratch() as d:
        try:
            gen = make_generator(model, X, **kw)
        except Bad as b:
            return [(b.stage, b.msg)]
        if py:
            try:
                P, _ = py_reference(gen, d)
                count("python_executions", len(X))
                m = mismatch(P, want, rtol, atol, "python")
                if m:
                    fails.append(("py", m))
            except Bad as b:
                fails.append((b.stage, b.msg))
        if c:
            try:
                gen_files(gen, d)
                ct = ctype or gen.data_type
                exe = compile_c(d, ct)
                C = run_c(exe, d, X, want.shape[1], ct)
                m = mismatch(C, want, rtol, atol, "C")
                if m:
                    fails.append(("c", m))
            except Bad as b:
                fails.append((b.stage, b.msg))
    return fails


# ------------------------------------------------------------------------- check driver

class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout


_FN = None
_CASES = None
SLOW = 1                           # factor on the time limits


def _work(i):
    cid, params = _CASES[i]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(180 * SLOW)
    t = time.time()
    _STATS.clear()
    try:
        with quiet():
            fails = _FN(**params) or []
    except CaseTimeout:
        fails = [("timeout", f"case did not finish in {180 * SLOW} s")]
    except Bad as b:
        fails = [(b.stage, b.msg)]
    except Exception as e:  # noqa: BLE001
        fails = [("harness", _short(e) + " | " + traceback.format_exc()[-600:])]
    finally:
        signal.alarm(0)
    return i, fails, dict(_STATS), time.time() - t


class Check:
    """One property: runs the enumerated cases, applies known findings, writes evidence."""

    def __init__(self, prop, argv=None, rule="", level="exploration"):
        self.prop = prop
        argv = sys.argv[1:] if argv is None else argv
        self.replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
        self.only = argv[argv.index("--case") + 1] if "--case" in argv else None
        self.list_all = "--all" in argv
        self.summary = "--summary" in argv
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            self.tier = argv[argv.index("--tier") + 1]
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.results = []          # (case id, aspect, message)
        self.n_cases = 0
        self.distinct = 0
        self.samples = []
        self.stats = {}
        self.extra = {}
        self.assumptions = []
        kf = VERIF / "known_findings.json"
        self.known = json.loads(kf.read_text())["findings"] if kf.exists() else []
        self.known = [k for k in self.known if k["property"] == prop]
        d = os.environ.get("ACX_SCRATCH") or ("/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
        self.scratch = tempfile.mkdtemp(prefix=f"acxrun_{prop}_", dir=d)
        scratch.base = self.scratch
        os.chdir(self.scratch)

    # -- enumeration
    def run(self, cases, fn, samples=3, nproc=None):
        global _FN, _CASES, SLOW
        cases = list(cases)
        ids = [c[0] for c in cases]
        if len(set(ids)) != len(ids):
            dup = sorted({i for i in ids if ids.count(i) > 1})[:3]
            raise SystemExit(f"duplicate case ids {dup}")
        if self.replay:
            want = json.loads(Path(self.replay).read_text())["case"]
            cases = [c for c in cases if c[0] == want]
        if self.only:
            cases = [c for c in cases if self.only in c[0]]
        _FN, _CASES = fn, cases
        stats_sum = {}
        n = nproc or NPROC
        order = list(range(len(cases)))
        slow = []
        if cases:
            todo = set(order)
            while todo:            # a worker killed from outside (memory) does not lose the run
                before = len(todo)
                try:
                    with cf.ProcessPoolExecutor(min(n, len(todo)), mp_context=mp.get_context("fork")) as pool:
                        first = os.environ.get("ACX_FIRST")     # development: stop at the first violation, cases in scattered order
                        for f in cf.as_completed([pool.submit(_work, i) for i in (sorted(todo, key=lambda i: i * 7919 % 10007) if first else sorted(todo))]):
                            i, fails, stats, dt = f.result()
                            if first and any(not self._known(cases[i][0], a) for a, _ in fails):
                                print(f"FIRST {cases[i][0]} {fails[0]}"[:400], flush=True)
                                for p in list(pool._processes.values()):
                                    p.kill()
                                shutil.rmtree(self.scratch, ignore_errors=True)
                                os._exit(1)
                            todo.discard(i)
                            slow.append((dt, cases[i][0]))
                            for a, m in fails:
                                self.results.append((cases[i][0], a, m))
                            for k, v in stats.items():
                                stats_sum[k] = stats_sum.get(k, 0) + v
                except cf.process.BrokenProcessPool:
                    n = max(1, n // 2)
                    if len(todo) == before:
                        self.results += [(cases[i][0], "harness", "the process running this case died") for i in sorted(todo)]
                        todo.clear()
        late = {cid for cid, a, m in self.results if "timeout" in (a, m) or "TimeoutExpired" in m}
        if 0 < len(late) <= 4 and not os.environ.get("ACX_FIRST"):     # a busy machine, or a program that does not end? Once more, with more time and fewer at once
            SLOW = 2
            self.results = [r for r in self.results if r[0] not in late]
            with cf.ProcessPoolExecutor(len(late), mp_context=mp.get_context("fork")) as pool:
                for f in cf.as_completed([pool.submit(_work, i) for i in order if cases[i][0] in late]):
                    i, fails, stats, dt = f.result()
                    slow.append((dt, cases[i][0]))
                    self.results += [(cases[i][0], a, m) for a, m in fails]
            SLOW = 1
        self.slow = sorted(slow, reverse=True)[:5]
        self.n_cases += len(cases)
        self.distinct += len({json.dumps(c[1], sort_keys=True, default=str) for c in cases})
        for k, v in stats_sum.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for c in cases[:: max(1, len(cases) // samples)][:samples]:
            self.samples.append(c[0])
        return stats_sum

    def fail(self, case, aspect, msg):
        self.results.append((case, aspect, msg))

    def _known(self, case, aspect):
        for k in self.known:
            if aspect in k["aspects"] and case in k["cases"]:
                return k
        return None

    def finish(self):
        new, old = [], {}
        for case, aspect, msg in self.results:
            k = self._known(case, aspect)
            if k is None:
                new.append((case, aspect, msg))
            else:
                old.setdefault(k["id"], [k, 0])[1] += 1
        new.sort()
        wall = time.time() - self.t0
        st = dict(self.stats)
        if self.level == "model_checking":
            cov = {"states": st.pop("states", 0), "transitions": st.pop("transitions", 0),
                   "traces_validated_against_impl": st.pop("traces", 0), "cases": self.n_cases,
                   "rule": self.rule, "samples": self.samples}
            st.pop("nontrivial", None)
        else:
            cov = {"evaluations": self.n_cases, "distinct_nontrivial": min(self.distinct, st.pop("nontrivial", self.distinct)),
                   "rule": self.rule, "samples": self.samples}
        cov.update(st)
        cov.update(self.extra)
        cov["exhaustive"] = True
        cov["known_finding_hits"] = sum(v[1] for v in old.values())
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
        evd = VERIF / "evidence"
        evd.mkdir(exist_ok=True)
        if not self.replay and not self.only:
            (evd / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for kid, (k, cnt) in sorted(old.items()):
            print(f"KNOWN-FINDING: property={self.prop} {k['what']} [{kid}, {cnt} listed case(s) observed]")
        if self.summary:
            import re
            g = {}
            for case, aspect, msg in new:
                g.setdefault((aspect, re.sub(r"/dev/shm\S*/|[-\d.]+", "#", msg)[:110]), []).append(case)
            for (a, m), cs in sorted(g.items(), key=lambda t: -len(t[1])):
                print(f"{len(cs):5d} [{a}] {m}\n        e.g. {cs[0]}\n             {cs[-1]}")
            print(f"{len(new)} failures in {len({n[0] for n in new})} of {self.n_cases} cases; wall {wall:.0f}s")
        elif new:
            rd = evd / "replay"
            rd.mkdir(exist_ok=True)
            shown = new if self.list_all else new[:10]
            for case, aspect, msg in shown:
                h = hashlib.sha1(f"{case}|{aspect}".encode()).hexdigest()[:10]
                rp = rd / f"{self.prop}-{h}.json"
                rp.write_text(json.dumps({"property": self.prop, "case": case, "aspect": aspect, "message": msg,
                                          "replay_cmd": f"./check {self.prop} --tier {self.tier} --replay {rp}"}, indent=1) + "\n")
                print(f"VIOLATION property={self.prop} replay={rp}")
                print(f"    case {case} [{aspect}] {msg}")
            if len(new) > len(shown):
                print(f"    ... and {len(new) - len(shown)} more")
        print(f"{self.prop}: {self.tier} {self.n_cases} cases, {len(new)} violations, "
              f"{cov['known_finding_hits']} known, {wall:.1f}s")
        if getattr(self, "slow", None) and os.environ.get("ACX_SLOW"):
            print("   slowest:", self.slow)
        os.chdir("/")
        shutil.rmtree(self.scratch, ignore_errors=True)
        sys.stdout.flush()
        return 1 if new else 0
