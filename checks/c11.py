"""C11: combining. Every small payload of the model, replayed; payloads of parses and odd payloads, validated."""
import json
from . import gen, c09, core, parsing


def d(name, args=(), inc=None, block=None, comment=None, m=False, l=1, f=""):
    return dict(d=name, l=l, a=list(args), f=f, i=list(inc or []), hi=inc is not None, b=block or [], hb=block is not None,
                c=comment or "", hc=comment is not None, m=m)


def inc(*ix):
    return d("include", ["x"], inc=list(ix))


ITEMS = [d("a", ["1"]), inc(0), inc(1), inc(2), inc(1, 2), inc(1, 1), inc(), inc(3), inc(-1), d("blk", block=[inc(1)]), d("blk", block=[d("b"), d("blk", block=[inc(2), d("c")])]),
         d("#", comment=" c"), d("include", ["y"]), d("blk", block=[]), d("map", block=[d("include", ["1"], m=True)]), d("x", inc=[1]), d("include", ["z"], inc=[2], block=[d("b")]), inc(2, 1)]


def payload(cfgs, st="ok", errs=()):
    return dict(st=st, errs=list(errs), config=cfgs)


def exhaustive(c, name, items, sizes, stati):
    f = c._tmp("setup.json")
    with open(f, "w") as fh:
        json.dump(dict(items=items, sizes=sizes, stati=stati), fh)
    vec = c.model("MC_Combine", dict(Export=True), ["RefusedIff", "EmptyStays", "Nothing2Resolve", "OneConfig", "AllErrors", "SameWords", "Idempotent", "ExportVec"], env={"SETUP": f}, name=name)
    vecs = [c.vec(l) for l in vec]
    for v in vecs:  # as the driver records errors
        for p in (v["p"], v["out"]):
            for g in p["config"]:
                g["errs"] = [dict(l=e["l"], err=e) for e in g["errs"]]
    B = max(1, len(vecs) // 32)
    cases = [dict(op="combinen", ps=[v["p"] for v in vecs[i:i + B]]) for i in range(0, len(vecs), B)]
    obs = c.run_cases(cases, limit=200)
    bad, n = [], 0
    for b, o in enumerate(obs):
        outs = o["outs"] if o.get("k") == "done" else None
        for k, v in enumerate(vecs[b * B:(b + 1) * B]):
            n += 1
            g = outs and outs[k]
            ok = g and g["kept"] and (bool(v["ret"]) == bool(g["ret"])) and (g["nil"] if v["ret"] else g["p"] == v["out"])
            if not ok:
                bad.append(dict(op="combine", p=v["p"]))
    c.traces += n
    c.stage(name + ":replay", replayed=n, mismatches=len(bad))
    bad.sort(key=lambda k: len(json.dumps(k)))
    if vecs:
        v = vecs[len(vecs) // 2]
        c.sample({"payload": v["p"], "combined": v["out"], "refused": v["ret"]})
    if bad:
        c.conform(bad[:150], name="suspects", sample=0)


def odd(rng):
    """any payload, references anywhere"""
    n = rng.choice([0, 1, 2, 3, 5, 8])

    def ds(depth, k):
        out = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            x = rng.random()
            if x < 0.35:
                ix = [rng.choice(list(range(k + 1, n)) or [0]) if rng.random() < 0.93 else rng.choice([k, 0, n, -1, 99]) for _ in range(rng.choice([0, 1, 1, 2, 3]))] if k + 1 < n else []
                y = d(rng.choice(["include", "include", "include", "inc", "#"]), ["p"], inc=ix if rng.random() < 0.95 else None)
                if rng.random() < 0.1:
                    y = dict(y, b=ds(depth - 1, k), hb=True) if depth > 0 else y
            elif x < 0.6 and depth > 0:
                y = d(rng.choice(["blk", "http", "map", "include"]), ["q"], block=ds(depth - 1, k), m=rng.random() < 0.1)
            elif x < 0.7:
                y = d("#", comment=rng.choice(["", " c", "x"]))
            else:
                y = d(rng.choice("abc"), [rng.choice(["", "x", "y z"])] * rng.choice([0, 1, 2]), m=rng.random() < 0.1)
            out.append(dict(y, l=rng.randint(0, 9), f=rng.choice(["", "f%d" % k, "other"])))
        return out
    cfgs = []
    for k in range(n):
        errs = [dict(l=rng.choice([0, 3]), err=dict(w="w", l=rng.choice([3, 7]), f="f", s="", b="main", t="w in f:7")) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        for e in errs:
            e["err"]["t"] = "w in f:%d" % e["err"]["l"]
        cfgs.append(dict(file="f%d" % k, st=rng.choice(["ok", "ok", "ok", "failed", "failed" if errs else "ok", ""]), errs=errs, parsed=ds(3, k)))
    perrs = [dict(file="f0", l=2, err=dict(w="p", l=2, f="f0", s="", b="main", t="p in f0:2"), cb="")] if rng.random() < 0.3 else []
    return dict(op="combine", p=payload(cfgs, rng.choice(["ok", "ok", "failed", ""]), perrs))


def big(rng):
    """many configurations: chains, trees, one that includes all, and positions everywhere"""
    n = rng.choice([17, 40, 70, 130, 260])
    kind = rng.choice(["chain", "tree", "fan", "blocks", "list"])
    n = min(n, 90) if kind == "blocks" else n  # JSON is read to a depth of 255
    cfgs = []
    for k in range(n):
        if kind in ("chain", "blocks"):
            ts = [k + 1] if k + 1 < n else []
        elif kind == "tree":
            ts = [j for j in (2 * k + 1, 2 * k + 2) if j < n]
        else:
            ts = list(range(1, n)) if k == 0 else []
        a = [d("a", ["f%d" % k], l=k + 1, f="f%d" % k)]
        if kind == "list":
            ds = [inc(*ts)] if ts else []
        else:
            ds = [d("blk", block=a + [inc(t)] + a) if kind == "blocks" or rng.random() < 0.2 else inc(t) for t in ts]
        errs = [dict(l=3, err=dict(w="w", l=3, f="f", s="", b="main", t="w in f:3"))] if rng.random() < 0.1 else []
        cfgs.append(dict(file="f%d" % k, st="failed" if errs else "ok", errs=errs, parsed=(a if rng.random() < 0.8 else []) + ds + (a if rng.random() < 0.8 else [])))
    if rng.random() < 0.15:
        cfgs[-1]["parsed"] = [inc(n)]
    return dict(op="combine", p=payload(cfgs, "ok", []))


def run(c):
    exhaustive(c, "two-configs", ITEMS, [2, 2] if c.thorough else [2, 1], ["ok"])
    exhaustive(c, "three-configs", ITEMS[:9] + [ITEMS[9], ITEMS[17]], [2, 1, 1] if c.thorough else [1, 1, 1], ["ok", "failed"])
    exhaustive(c, "three-configs-includes", [ITEMS[0], ITEMS[2], ITEMS[3], ITEMS[4], ITEMS[9], ITEMS[16]], [2, 2, 1], ["ok"])
    c.conform([odd(c.rng) for _ in range(c.pick(500, 10000))], name="odd-payloads")
    c.conform([big(c.rng) for _ in range(c.pick(25, 300))], name="large-payloads", sample=0)
    two = [dict(combine=False), dict(combine=True)]
    ps = [parsing.project(c.rng, lua=c.rng.random() < 0.15, broken=c.rng.choice([0, 0, 0.3]), missing=c.rng.choice([0, 0.05])) for _ in range(c.pick(300, 6000))]
    c.conform([parsing.variants(p, two) for p in ps], name="projects")
    c.conform([parsing.variants(c09.wide(c.rng), two) for _ in range(c.pick(15, 200))], name="wide", sample=0)
