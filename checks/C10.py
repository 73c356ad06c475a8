"""C10: the schedule and the shared buffers of any dataflow graph.

Model: the state of the generated program between two layers is the content of its buffers (output_k, cst_k). The transition relation is taken from the
real importer, scheduler and allocator: layer L reads the buffers its predecessors' results were assigned to, writes output_<path>, and copies it to
cst_<k> when the table says so. Every graph up to the bound is explored; in every state every operand read must be the value its producer computed.
Binding: for every distinct allocation the exploration meets, the C program is generated, compiled and run, and has to agree with onnxruntime."""
import itertools
import sys

import acx
from acx import Bad, count
from graphs import ARITY, HELP, explore, graphs, replay, txt


def model_case(n, kinds, prefix, opts, distinct=False, conf=False):
    fails, sigs, seen = [], {}, set()
    for g in graphs(n, kinds, prefix, distinct):
        for opt in opts:
            count("model_graphs")
            try:
                f, s = explore(g, opt, seen)
            except Bad as b:
                f, s = [(b.stage, b.msg)], None
            except Exception as e:               # the schedule cannot be executed
                f, s = [("run", f"{type(e).__name__}: {e}")], None
            fails += [(a, f"graph {txt(g)} optimization={opt}: {m}") for a, m in f]
            if s is not None and s not in sigs:
                sigs[s] = (g, opt)
            if len(fails) > 5:
                return fails
    if conf:                                  # one generated program per distinct allocation
        for g, opt in sigs.values():
            f = replay(g, opt)
            fails += [(a, f"graph {txt(g)} optimization={opt}: {m}") for a, m in f]
    return fails


def conf_case(g, opt):
    return replay(g, opt)


def case(kind, **kw):
    return model_case(**kw) if kind == "model" else conf_case(**kw)


def graph_cases(n, kinds, depth, opts=(False, True), **kw):
    """One case per choice of the first 'depth' nodes."""
    pre = itertools.product(*[[(k, *o) for k in kinds for o in itertools.product(range(i + 1), repeat=ARITY.get(k, 1))] for i in range(depth)])
    return [(f"model,n={n},{kinds},{txt(p)}" + (",conf" if kw.get("conf") else ""), dict(kind="model", n=n, kinds=kinds, prefix=p, opts=opts, **kw)) for p in pre]


def deep():
    """Graphs beyond the size of the enumeration: long chains, many consumers, many tensors alive, every distance between a producer and its second consumer."""
    for kinds, n in (("a", 105), ("ke", 104), ("kea", 33), ("dk", 12)):
        yield tuple((kinds[j % len(kinds)], j) for j in range(n))
    for n in (2, 3, 5, 12):                              # n consumers of one tensor, and n tensors alive together
        g = [("a", 0)] + [("ke"[j % 2], 1) for j in range(n)]
        yield tuple(g + [("s", 2 + 0, 3)] + [("s", n + 1 + j, 3 + j) for j in range(1, n - 1)])
        g = [("ke"[j % 2], j) for j in range(n)]         # every tensor of a chain is used again at the end, first or last one first
        for order in (range(1, n), range(n - 1, 0, -1)):
            h, acc = list(g), n
            for j in order:
                h.append(("s", acc, j))
                acc = len(h)
            yield tuple(h)
    for d in range(2, 9):                                # j reads j-1 and j-d
        for n in (d + 1, 12, 14):
            if n > d:
                yield tuple([("k", j) for j in range(d - 1)] + [("s", j, j + 1 - d) for j in range(d - 1, n)])
    for d in range(2, 7):                                # residual blocks of d layers, one in the other
        yield tuple(x for b in range(3) for x in [("a" if j % 2 else "k", b * (d + 1) + j) for j in range(d)] + [("s", b * (d + 1) + d, b * (d + 1))])
        g = [("k", j) for j in range(d)]
        yield tuple(g + [("s", d + j, d - 1 - j) for j in range(d)])


def main():
    acx.import_target()
    c = acx.Check("C10", level="model_checking", rule="a state is the history of buffer contents of one generated program between two layers; every graph of the stated number "
                  "of nodes over the stated node kinds is explored (" + HELP + "); a trace is one generated program compiled and run against onnxruntime")
    cases = []

    def add(*a, **kw):
        cases.extend(graph_cases(*a, **kw))
    add(2, "acrstmk", 0)
    add(3, "acrstm", 1)
    add(3, "ask", 1)
    add(4, "acs", 2)
    add(4, "ast", 2)
    add(5, "as", 2, opts=(False,))
    add(4, "as", 2, conf=True)
    for n, kinds in ((1, "acrstmk"), (2, "acrstmk"), (3, "ars"), (3, "at")):
        for g in graphs(n, kinds):
            for opt in (False, True):
                cases.append((f"run,{txt(g)},opt={opt}", dict(kind="run", g=g, opt=opt)))
    for g in deep():
        for opt in (False, True):
            name = f"deep,{len(g)},{''.join(k for k, *_ in g)[:20]},{sum((j + 1) * sum(o) for j, (_, *o) in enumerate(g))},opt={opt}"
            cases.append((name, dict(kind="run", g=g, opt=opt)))
            cases.append((name + ",model", dict(kind="model", n=len(g), kinds="", prefix=g, opts=(opt,))))
    if c.thorough:
        add(4, "acsm", 2)
        add(5, "acs", 3)
        add(5, "as", 2, conf=True)
        add(6, "as", 3, opts=(False,), distinct=True)
        for g in graphs(3, "acrstk"):
            for opt in (False, True):
                cases.append((f"run,{txt(g)},opt={opt}", dict(kind="run", g=g, opt=opt)))
    seen = set()
    uniq = [x for x in cases if not (x[0] in seen or seen.add(x[0]))]
    c.run(uniq, case)
    c.assumptions = ["a layer's own code reads its operands before it writes its output (each layer's in-place behaviour is decided by the per-layer checks)",
                     "single-output graphs in which every node is used"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
