"""C12: building what was parsed and parsing it again."""
import json
from . import gen, c01, parsing

LAYOUTS = [dict(indent=0, tabs=False, header=False), dict(indent=0, tabs=True, header=False), dict(indent=2, tabs=False, header=True), dict(indent=0, tabs=True, header=True),
           dict(indent=1, tabs=False, header=False), dict(indent=8, tabs=True, header=True), dict(indent=3, tabs=False, header=False), dict(indent=37, tabs=False, header=False)]


def layout(rng, lua):
    return dict(rng.choice(LAYOUTS), lua=lua, ext=[])


def erase(ds, comments):
    out = []
    for x in ds:
        if x["d"] == "#" and x["hc"] and not comments:
            continue
        out.append(dict(x, l=0, b=erase(x["b"], comments)))
    return out


def ctext(ds):
    out = []
    for x in ds:
        if x["d"] == "#" and x["hc"]:
            out.append(x["c"])
        out += ctext(x["b"])
    return out


def holds(o):
    """the same judgement as VRound, for one file"""
    if o["ret"] or o["p"]["st"] != "ok":
        return True
    if o["berr"] or o["ret2"] or o["p2"]["st"] != "ok" or o["ret3"] or o["p3"]["st"] != "ok" or o["built2"] != o["built3"]:
        return False
    a, b, d = (o[k]["config"][0]["parsed"] for k in ("p", "p2", "p3"))
    return erase(a, False) == erase(b, False) and " #".join(ctext(a)) == " #".join(ctext(b)) and erase(b, True) == erase(d, True)


def confs(c, kind, n):
    cf = parsing.Confs(c, kind, n, built=True)
    cf.vecs = [v for v in cf.vecs if v["bt"]]
    outs = cf.run("par", op="roundn", extra=dict(build=dict(indent=0, tabs=False, header=False, lua=cf.lua, ext=[])))
    bad, other = [], []
    for v, o in zip(cf.vecs, outs):
        if o is None or not holds(o):
            bad.append(v["x"])
        elif o["built"][:1] != v["bt"]:
            other.append(v["x"])
    c.traces += len(outs)
    c.stage("all-confs-%s:round-trips" % kind, replayed=len(outs), mismatches=len(bad), laid_out_otherwise=len(other))
    if bad:
        bad.sort(key=len)
        c.conform([dict(cf.case(x, op="round"), build=dict(LAYOUTS[0], lua=cf.lua, ext=[])) for x in bad[:150]], name="suspects", sample=0)


def comb(rng):
    """a project whose files are accepted in every place they are included at"""
    p = parsing.project(rng, lua=rng.random() < 0.2, broken=0, missing=0, options=dict(stop=False, cb=False, combine=True, skipctx=True, skipargs=True))
    return p


def run(c):
    for kind, n in (("stmts", c.pick(5, 6)), ("maps", c.pick(4, 6)), ("ifs", c.pick(5, 6)), ("ifq", c.pick(4, 5)), ("ifb", c.pick(5, 6)), ("words", c.pick(5, 6)), ("tokens", c.pick(5, 6)), ("lua", c.pick(5, 6)), ("comments", c.pick(5, 6))):
        confs(c, kind, n)
    cs = []
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(500, 10000), 50):
            cs.append(dict(gen.parse_case(x, lua=lua, op="round", strict=False, stop=c.rng.random() < 0.1, skipargs=c.rng.random() < 0.5, skipctx=c.rng.random() < 0.5), build=layout(c.rng, lua)))
    for x in parsing.conditions(c.rng, c.pick(300, 6000)):
        cs.append(dict(gen.parse_case(x, op="round", skipargs=c.rng.random() < 0.5, skipctx=True), build=layout(c.rng, False)))
    for _ in range(c.pick(400, 8000)):
        k = parsing.anycase(c.rng, combine=False, cb=False, strict=False, skipctx=c.rng.random() < 0.7, skipargs=c.rng.random() < 0.7)
        cs.append(dict(k, op="round", build=layout(c.rng, k["opt"]["lua"])))
    for x in gen.long_texts(c.rng, c.pick(4, None)):
        cs.append(dict(gen.parse_case(x, op="round", skipargs=True), build=layout(c.rng, False)))
    for _ in range(c.pick(200, 4000)):
        p = parsing.project(c.rng, lua=c.rng.random() < 0.2, broken=0, missing=0, options=dict(cb=False, combine=False, skipargs=True))
        cs.append(dict(p, op="round", build=layout(c.rng, p["opt"]["lua"])))
    for _ in range(c.pick(100, 2000)):
        p = comb(c.rng)
        cs.append(dict(p, op="round", build=layout(c.rng, p["opt"]["lua"])))
    c.conform(cs, name="round-trips")
