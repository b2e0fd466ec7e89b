"""C10: include cycles. Every include graph on a few files, replayed; large graphs, validated."""
import json
from . import gen, core, c09, parsing

NAMES = ["m", "a", "b", "c", "d", "e", "f", "g"]


def text(rng, targets, style):
    """includes of the targets, in one of several forms"""
    if style == 0:
        return "".join("include %s;" % t for t in targets)
    if style == 1:
        return "".join("blk { include %s; }" % t for t in reversed(targets))
    if style == 2:
        return "include [%s];" % "".join(targets) if targets else "include none*;"
    if style == 3:
        return "".join("include %s;unk{unk{include ./%s;}}" % (t, t) for t in targets)
    return "a0 bad;" + "".join("include x/../%s;include zz;" % t for t in targets)


def graphs(c, n, style):
    vec = [c.vec(l) for l in c.model("MC_Cycle", dict(N=n, Export=True), ["TypeOK", "OnceEach", "AllFound", "CycleIff", "InDegrees", "ExportVec"], name="all-graphs-%d" % n)]
    base = gen.parse_case("", name="m")
    base["files"] = []
    names = NAMES[:n]
    subsets = [[names[i] for i in range(n) if k >> i & 1] for k in range(2 ** n)]
    base["globs"] = [dict(p="[%s]" % "".join(s), e="", n=list(reversed(s))) for s in subsets if s]
    vecs = []
    for k, v in enumerate(vec):
        st = (k % 5) if style is None else style
        vecs.append(dict(fs=[text(c.rng, [names[j - 1] for j in v["a"][i]], st) for i in range(n)], cyc=v["c"], order=[names[j - 1] for j in v["o"]], ret=[], p=v))

    def same(v, got):
        if v["cyc"]:
            return len(got["ret"]) == 1 and got["ret"][0]["w"] == "configs contain include cycle"
        return not got["ret"] and {g["file"] for g in got["p"]["config"]} == set(v["order"])
    cs = c09.replay(c, "all-graphs-%d" % n, base, names, vecs, same)
    if cs:
        c.conform(cs, name="suspects", sample=0)


def big(rng):
    k = c09.wide(rng)
    fs = k["files"]
    names = [f["n"] for f in fs]
    for _ in range(rng.choice([0, 1, 1, 3, 10])):  # some more references, backward ones as well
        i, j = rng.randrange(len(fs)), rng.randrange(len(fs))
        if rng.random() < 0.5 and i > j:
            i, j = j, i
        fs[i]["x"] += "include %s;" % names[j]
    return k


def ring(n, back, tail):
    """a chain of n files whose last one includes the file `back` steps before (0: none)"""
    names = ["m"] + ["f%d" % i for i in range(1, n)]
    files = []
    for i, nm in enumerate(names):
        x = "include %s;" % names[i + 1] if i + 1 < n else ("include %s;" % names[n - back] if back else "")
        files.append(dict(n=nm, k="ok", x=x + tail, e=""))
    k = gen.parse_case("", name="m")
    k["files"] = files
    return k


def run(c):
    graphs(c, 3, None)
    graphs(c, 3, 3)
    graphs(c, 4, None if not c.thorough else 0)
    if c.thorough:
        for st in (1, 2, 3, 4):
            graphs(c, 4, st)
    # termination, on the specification with texts
    c.model("MC_Cycle", dict(N=3, Export=False), ["CycleIff"], ["Terminates"], name="termination")
    al = [0, 1, 2, 5, 7, 8, 9, 17]
    base, names, vecs = c09.systems(c, "file-systems", [("m", 2, al), ("a", 1, [0, 1, 2, 9, 17]), ("b", 1, [0, 1, 2, 9])], liveness=True)
    cs = c09.replay(c, "file-systems", base, names, vecs, lambda v, g: bool(v["ret"]) == bool(g["ret"]))
    if cs:
        c.conform(cs, name="suspects", sample=0)
    ps = [big(c.rng) for _ in range(c.pick(60, 800))]
    ps += [ring(n, b, t) for n in (1, 2, 5, 50) for b in range(0, min(n, 4) + 1) for t in ("", "include f1;" if n > 1 else "")]
    ps += [dict(p, opt=dict(p["opt"], stop=s, combine=m)) for p in [parsing.project(c.rng, broken=0.1, missing=0.03) for _ in range(c.pick(150, 3000))] for s, m in [(c.rng.random() < 0.3, c.rng.random() < 0.3)]]
    c.conform(ps, name="large")
