"""Single source of properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mech, level=None, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, na=na, observe=observe))


def properties():
    out = []
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a})
    return out


def manifest():
    return {"version": 1, "setup_cmd": "/opt/venv/bin/python -m py_compile lib/acx.py && gcc --version >/dev/null",
            "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick",
                        "thorough_cmd": f"./check {p['id']} --tier thorough", "technique": p["technique"],
                        "level": p["level"], "level_note": p["note"]} for p in P if p["technique"]],
            "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}


S = "src/acetone_nnet/"
G = S + "generator/"
L = G + "layers/"
T = S + "templates/"
BOUNDED = "bounded exhaustive exploration of the real generator, compiler output and Python reference"
from props_data import define  # noqa: E402
define(prop, S, G, L, T, BOUNDED)
