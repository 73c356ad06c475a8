"""Mutation campaign (development only): python3 tools/mutate.py LIST   enumerates;  python3 tools/mutate.py RUN FILE PROPS [max] runs the checks, stopping at the first violation, on mutants of FILE
(relative to src/acetone_nnet) in a private mount namespace. Results are appended to /tmp/mut.jsonl."""
import json, os, random, re, shutil, subprocess, sys, time
from pathlib import Path
SRC = Path("/repo/src/acetone_nnet")
PAIRS = [("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" * ", " + "), (" // ", " * "), (" and ", " or "), (" or ", " and "),
         ("True", "False"), ("False", "True"), (" not in ", " in "), ("not ", ""), ("[0]", "[1]"), ("[1]", "[0]"), ("[2]", "[3]"), ("[3]", "[2]"), ("[-1]", "[0]"), ("height", "width"), ("width", "height"),
         ("channels", "height"), ("pad_top", "pad_left"), ("pad_left", "pad_top"), ("pad_right", "pad_bottom"), ("pad_bottom", "pad_right"), ("kernel_h", "kernel_w"), ("kernel_w", "kernel_h"), ("min(", "max("), ("max(", "min("),
         (" 0", " 1"), (" 1", " 2"), ("(0", "(1"), ("(1", "(2"), ("+1", ""), ("-1", ""), ("++", "+=2"), ("floor", "ceil"), ("ceil", "floor"), ("{{#", "{{^"), ("{{^", "{{#"), ("biases", "weights"), ("idx", "path"),
         ("channels_first", "channels_last"), ("channels_last", "channels_first"), ("transA", "transB"), ("alpha", "beta"), ("break", "continue"), ("continue", "break"), ("append", "extend"), (".T", ""), ("abs(", "("), ("input_shape", "output_shape"), ("output_shape", "input_shape"), ("is None", "is not None"), ("is not None", "is None"),
         ("4", "3"), ("3", "4"), ("2", "3"), ("double", "float"), ("size", "size - 1"), ("static ", ""), ("||", "&&"), ("&&", "||")]
SKIP = re.compile(r"^\s*(#|\*|//|/\*|import|from|raise|msg|logging|print|return msg|\"\"\"|\}|\)|$)|type\(|msg \+=|Error|logging\.|isinstance\(self\.|hasattr\(self|TypeError|ValueError|NotImplemented|: str|-> |f\"\(|!=\{|def |class ")


def mutants(f):
    t = (SRC / f).read_text()
    lines = t.split("\n")
    out, doc, check = [], False, False
    for i, l in enumerate(lines):
        if f.endswith(".py"):
            if l.count('"""') == 1:
                doc = not doc
                continue
            if "Checking argument type" in l or "Checking the instantiation" in l or "Checking value consistency" in l:
                check = True
            if re.match(r"    def ", l):
                check = False
            if check:
                continue
        if doc or i < 20 and f.endswith(".py") or SKIP.search(l):
            continue
        for a, b in PAIRS:
            for k, m in enumerate(re.finditer(re.escape(a), l)):
                if k > 1:
                    break
                n = l[:m.start()] + b + l[m.end():]
                if n != l:
                    out.append((i, l, n))
    return out


def run(f, props, limit):
    ms = mutants(f)
    rng = random.Random(hash(f) % 1000)
    rng.shuffle(ms)
    seen, res = set(), []
    done = {(j["file"], j["line"], j["new"]) for j in map(json.loads, open("/tmp/mut.jsonl"))} if os.path.exists("/tmp/mut.jsonl") else set()
    for i, old, new in ms:
        if len(res) >= limit:
            break
        if i in seen and len(ms) > limit * 2 or (f, i + 1, new) in done:
            continue
        seen.add(i)
        D = Path(f"/tmp/mutrun{os.getpid()}")
        shutil.rmtree(D, ignore_errors=True)
        shutil.copytree("/repo/src", D / "src", ignore=shutil.ignore_patterns("__pycache__"))
        (D / "ev").mkdir()
        p = D / "src/acetone_nnet" / f
        L = p.read_text().split("\n")
        L[i] = new
        p.write_text("\n".join(L))
        if f.endswith(".py") and subprocess.run(["/opt/venv/bin/python", "-m", "py_compile", str(p)], capture_output=True).returncode:
            continue
        killed, t0 = None, time.time()
        for P in props:
            r = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {D}/src /repo/src; mount --bind /tmp/vcopy /verif; mount --bind {D}/ev /verif/evidence; cd /verif; ACX_FIRST=1 timeout 600 ./check {P}"], capture_output=True, text=True)
            if r.returncode:
                killed = P
                why = [l for l in r.stdout.splitlines() if l.startswith(("FIRST", "VIOL", "    case"))][:2] or r.stderr[-200:]
                break
        j = dict(file=f, line=i + 1, old=old.strip(), new=new, killed=killed, why=str(why)[:200] if killed else None, t=round(time.time() - t0))
        res.append(j)
        open("/tmp/mut.jsonl", "a").write(json.dumps(j) + "\n")
        if not killed:
            print("SURVIVED", f, i + 1, "|", old.strip()[:110], "->", new.strip()[:110], j["t"], flush=True)
    print(f, "mutants", len(res), "killed", sum(j["killed"] is not None for j in res), flush=True)


if sys.argv[1] == "LIST":
    for p in sorted([*SRC.rglob("*.py"), *SRC.rglob("*.tpl")]):
        print(p.relative_to(SRC), len(mutants(str(p.relative_to(SRC)))))
else:
    run(sys.argv[2], sys.argv[3].split(","), int(sys.argv[4]) if len(sys.argv) > 4 else 20)
