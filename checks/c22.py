"""C22: calls are deterministic, independent, and leave their inputs alone.  Every short history of calls of the
model is replayed; random longer ones; aliasing between parsed directives."""
from . import gen, c01, c14, parsing

NAMES = ["include", "listen", "server", "map", "http", "if", "proxy_pass", "location", "js_import", "otel_exporter", "content_by_lua_block", "geoip2", "zone", "upstream", "more_set_headers",
         "app_protect_enable", "ssl_certificate", "user", "nope", "#", "access_log", "mgmt", "types", "match"]


def setup(rng, kind=0, **kw):
    """two main files that include others, two parse options, two layouts"""
    p = parsing.project(rng, lua=True, broken=0.15, missing=0.1)
    q = parsing.project(rng, lua=True, broken=0.15, missing=0.1)
    names = {f["n"] for f in p["files"]}
    files = p["files"] + [f for f in q["files"] if f["n"] not in names]
    globs = p["globs"] + [g for g in q["globs"] if g["p"] not in {h["p"] for h in p["globs"]}]
    k = gen.parse_case("", op="hist")
    lua = rng.random() < 0.6
    o = lambda: gen.opt(ignore=rng.choice([[], ["a1"], ["blk", "listen", "a2"]]), stop=rng.random() < 0.15, combine=rng.random() < 0.3, single=rng.random() < 0.1, comments=rng.random() < 0.7,
                        strict=rng.random() < 0.15, skipctx=rng.random() < 0.3, skipargs=rng.random() < 0.3, lua=lua, cb=rng.random() < 0.3)
    k.update(files=files, globs=globs, mains=[p["main"], q["main"]], opts=[o(), o()], lays=[c14.layout(rng, lua), c14.layout(rng, lua)], names=NAMES, cap=2048, chunk=0)
    k.update(kw)
    if rng.random() < 0.3:  # more sources that know the same names
        k["src"] = rng.sample([[dict(n=n, m=[["main", "http", "block", "any"], ["http.srv", "any"]][:rng.choice([1, 2])]) for n in rng.sample(["a0", "a1", "a2", "any", "blk", "fl", "listen", "new"], 5)] for _ in range(2)] + k["src"], 3)
    if rng.random() < 0.25:
        k["deflt"] = True
    return k


SMALL = [dict(n="m1", k="ok", x="#c\nhttp { server { listen 1; include s*; if ($a = b) { a0; } } map $a $b { x 1; y z; } # d\n}\nblk { include t; any \"p q\" 'it''s'; }", e=""),
         dict(n="m2", k="ok", x="include t;\nblk {\n nope1; nope2 x; a1;\n a0 #c\n;}\nfl maybe; content_by_lua_block { x = {} } include t;", e=""),
         dict(n="s1", k="ok", x="a0;\nblk { a1 b; }", e=""), dict(n="s2", k="ok", x="a0 #e\n; include t;", e=""), dict(n="t", k="ok", x="any 1 2 3; any a b;\nmap x { z w; }", e="")]


def random_steps(rng, n, reparse=0.4):
    kinds = ["fixed"] * 5
    bound, steps = set(), []
    while len(steps) < n:
        pay = [i for i, k in enumerate(kinds) if k in ("payload", "combined")]
        x = rng.random()
        if not pay or x < reparse:
            if rng.random() < 0.85:
                steps.append(dict(o="parse", a=rng.choice([1, 2]), b=rng.choice([1, 2])))
                kinds.append("payload")
            else:
                steps.append(dict(o="lex", a=rng.choice([1, 2]), b=0))
                kinds.append("tokens")
            continue
        h = rng.choice(pay)
        o = rng.choice(["comb", "build", "build", "into", "json", "equal", "poke"])
        if o == "poke":
            if kinds[h] == "payload" and h not in bound:
                steps.append(dict(o=o, a=h + 1, b=0))
            continue
        if o == "comb":
            bound.add(h)
        steps.append(dict(o=o, a=h + 1, b=rng.choice([3, 4]) if o in ("build", "into") else rng.choice(pay) + 1 if o == "equal" else 0))
        kinds.append("combined" if o == "comb" else "value")
    return steps


def run(c):
    r = c.rng
    inv = ["TypeOK", "Deterministic", "ExportVec"]
    hs = [c.vec(l)["s"] for l in c.model("MC_Hist", dict(MaxSteps=3, NTexts=2, NOpts=2, NLays=2, Export=True), inv, ["Persistent"], name="histories-3")]
    hs4 = [c.vec(l)["s"] for l in c.model("MC_Hist", dict(MaxSteps=4, NTexts=2, NOpts=2, NLays=c.pick(1, 2), Export=True), inv, ["Persistent"], name="histories-4")]
    base = gen.parse_case("", op="hist")
    base.update(files=SMALL, globs=[dict(p="s*", e="", n=["s2", "s1"])], mains=["m1", "m2"], names=NAMES, cap=2048, chunk=0,
                opts=[gen.opt(lua=True, cb=True, ignore=["nope2"]), gen.opt(lua=True, combine=True, skipargs=True)],
                lays=[c14.lay(lua=True), c14.lay(indent=2, header=True, lua=True, ext=["any"])])
    more = [dict(n=n, m=[["main", "http", "2"], ["http.srv", "1"]]) for n in ("a0", "any", "a1", "blk", "fl")]
    base["src"] = [more, base["src"][0], more[::-1]]
    pick = hs + r.sample(hs4, c.pick(1200, 12000))
    c.conform([dict(base, steps=s) for s in pick], name="short-histories", sample=1)
    c.conform([setup(r, steps=random_steps(r, r.choice([4, 6, 8]))) for _ in range(c.pick(300, 6000))], name="long-histories", sample=1)
    # from the first call of a process on: nothing is left behind by calls with other lexers and builders
    fr = []
    for i in range(c.pick(96, 800)):
        k = setup(r)
        if r.random() < 0.6:
            k.update(files=SMALL, globs=[dict(p="s*", e="", n=["s2", "s1"])], mains=["m1", "m2"])
        k["opts"][0].update(lua=True, regs=[dict(n=["a1", "zz"], pr=[["lit", "#", True]], eof=False, cap=0)] if r.random() < 0.5 else [])
        k["opts"][1].update(lua=False, regs=r.choice([[], [dict(n=["any"], pr=[["lit", "x", True]], eof=False, cap=0)], [dict(n=["a0", "a1"], pr=[["lit", "y", True], ["lit", ";", False]], eof=False, cap=1)]]))
        k["lays"] = [c14.lay(lua=True, ext=r.choice([[], ["any"]])), c14.lay(lua=False, ext=r.choice([[], ["any"], ["a1", "content_by_lua_block"]]))]
        if r.random() < 0.5:
            k["lays"].reverse()
        a, b = r.sample([1, 2], 2)
        t = r.choice([1, 2])
        s = [dict(o="parse", a=t, b=a), dict(o="parse", a=r.choice([1, 2]), b=b), dict(o="parse", a=t, b=a)]
        p = r.choice([6, 7])
        s += [dict(o="build", a=p, b=2 + a), dict(o=r.choice(["build", "into"]), a=p, b=2 + b), dict(o="build", a=p, b=2 + a), dict(o="into", a=p, b=2 + a), dict(o="comb", a=6, b=0), dict(o="parse", a=t, b=b)]
        fr.append(dict(k, steps=s))
    c.conform(fr, name="first-histories", sample=0, fresh=True)
    al = []
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(250, 6000), 0):
            al.append(gen.parse_case(x, op="alias", lua=lua, skipctx=r.random() < 0.5, skipargs=r.random() < 0.5, combine=r.random() < 0.2))
    for _ in range(c.pick(80, 2000)):
        p = parsing.project(r, lua=r.random() < 0.3, broken=0.05, missing=0)
        al.append(dict(p, op="alias"))
    for w in (5, 60, 300):
        al.append(gen.parse_case("any x%s;" % (" w" * w) * 3 + "blk { any %s; #c\n #d\n }" % ("v " * w) + "map a b { x %s; }" % ("v " * 1), op="alias"))
        al.append(gen.parse_case("blk #c\n{ a0 #d\n #e\n; }\n" * w, op="alias"))
    c.conform(al, name="aliasing", sample=1)
    c.notes["histories"] = len(pick)
