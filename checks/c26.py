"""C26: what directives say of themselves, and files kept in memory."""
from . import gen, c14, c23, parsing


def steps(rng, n):
    ts, k = [], 0
    for _ in range(n):
        x = rng.random()
        if k == 0 or x < 0.25:
            ts.append(dict(o="create", h=0, x=rng.choice(["f", "", "g/h", "../x", "f", "a b", "\u00e9"])))
            k += 1
        elif x < 0.75:
            ts.append(dict(o="write", h=rng.randint(max(1, k - 3), k), x=rng.choice(["p", "", "q\nr", "\u00e9\u3000", "#" * 5000, "\\", "\r\n"])))
        elif x < 0.92:
            ts.append(dict(o="close", h=rng.randint(max(1, k - 3), k), x=""))
        else:
            ts.append(dict(o="reset", h=0, x=""))
    return ts


def run(c):
    r = c.rng
    vs = [c.vec(l) for l in c.model("MC_View", dict(MaxSteps=c.pick(5, 6), Export=True), ["Kinds", "InOrder", "Emptied", "Own", "ExportVec"], ["Kept"], name="directives-and-histories")]
    ds = [v for v in vs if "v" in v]
    hs = [v for v in vs if "t" in v]
    B, bad = 500, []
    for part, key in ((ds, "v"), ([dict(v, x=dict(v["x"], z=True)) for v in ds if v["v"][0]["block"] == (v["x"]["b"] != []) and v["v"][0]["include"] <= (v["x"]["i"] != [])], "v")):
        obs = c.run_cases([dict(op="views", ds=[v["x"] for v in part[i:i + B]]) for i in range(0, len(part), B)])
        for k, o in enumerate(obs):
            want = [w for v in part[k * B:(k + 1) * B] for w in v["v"]]
            if o.get("k") != "done" or o["v"] != want:
                bad += [dict(op="views", ds=[v["x"]]) for v in part[k * B:(k + 1) * B]]
    c.traces += 2 * len(ds)
    hbad = []
    obs = c.run_cases([dict(op="filesn", ts=[v["t"] for v in hs[i:i + B]]) for i in range(0, len(hs), B)])
    for k, o in enumerate(obs):
        for j, v in enumerate(hs[k * B:(k + 1) * B]):
            if o.get("k") != "done" or o["outs"][j] != dict(held=v["held"], all=v["all"], old=v["old"], bad=""):
                hbad.append(dict(op="filesn", ts=[v["t"]]))
    c.traces += len(hs)
    c.stage("replay", directives=len(ds), histories=len(hs), mismatches=len(bad) + len(hbad))
    if bad or hbad:
        c.conform(r.sample(bad, min(len(bad), 300)) + sorted(hbad, key=lambda h: len(h["ts"][0]))[:100], name="suspects", sample=0)
    cs = []
    for _ in range(c.pick(400, 6000)):
        cs.append(dict(op="views", ds=[x for x in c23.family(r, 6) if x["d"] != "<nil>" and not holes(x)] + c14.Trees(r, r.random() < 0.3).tree(2, 4)))
    for _ in range(c.pick(400, 6000)):
        cs.append(dict(parsing.anycase(r), op="viewsp"))
    for _ in range(c.pick(100, 1500)):
        cs.append(dict(parsing.project(r, lua=r.random() < 0.3), op="viewsp"))
    for _ in range(c.pick(200, 4000)):
        cs.append(dict(op="filesn", ts=[steps(r, r.choice([6, 12, 30, 100])) for _ in range(3)]))
    c.conform(cs, name="random", sample=3)


def holes(x):
    return any(y["d"] == "<nil>" or holes(y) for y in x["b"])
