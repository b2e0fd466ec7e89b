"""C18: I/O faults are reported and nothing is left behind."""
from . import gen, c01, c09, c11, c14, parsing

CAPS = [0, 0, 1, 2, 2048]


def realize(v, rng):
    """the file system and faults of a behaviour of MC_IO"""
    d = rng.choice(["", "", "d/"])
    name = lambda f: d + ("m" if f == 1 else "f%d" % f)
    globs, files = {}, []
    cut = {(f["n"]): f["k"] for f in v["faults"] if f["o"] == "read"}
    for i, items in enumerate(v["prog"]):
        f = i + 1
        x = rng.choice(["", "a0;\n", "#c\n"])
        full = True
        for j, it in enumerate(items):
            if cut.get(f) == j + 1:
                full = False
                break
            if it[0] == "bad":
                x += rng.choice(["a0 x;", "blk;", "a1 { a0; }", "fl maybe;"])
            elif it[0] == "inc":
                x += rng.choice(["include f%d;", "blk {include f%d;}", "\ninclude ./f%d;\n"]) % it[1]
            else:
                pat = "g%s*" % "".join(map(str, it[1]))
                globs[d + pat] = dict(p=d + pat, e="", n=[name(g) for g in reversed(it[1])])
                x += "include %s;" % pat
        if full and cut.get(f) == len(items) + 1 or f in cut:
            x += rng.choice(["", "", " ", "a0", "a1 '", "#", "blk {", "}", "log_by_lua_block {"])
            files.append(dict(n=name(f), k="read", x=x, e="read %s: broken" % name(f)))
        else:
            files.append(dict(n=name(f), k="ok", x=x + rng.choice(["", "a0;", "\n"]), e=""))
    return dict(files=files, globs=list(globs.values()), main=name(1),
                faults=[dict(o=f["o"], n=name(f["n"]) if f["o"] == "open" else "", k=f["k"]) for f in v["faults"] if f["o"] != "read"])


def model(c):
    vec = c.model("MC_IO", dict(N=3, MaxItems=2, MaxFault=c.pick(1, 3), Export=True), ["Closed", "Told", "Once", "All", "ExportVec"], ["Ends"], name="faults")
    vs = [c.vec(l) for l in vec]
    r = c.rng
    cases = []
    for v in vs:
        k = gen.parse_case("", op="watch", stop=v["stop"], lua=r.random() < 0.3, cb=r.random() < 0.3, combine=r.random() < 0.1, strict=r.random() < 0.3)
        k.update(realize(v, r), cap=r.choice(CAPS), chunk=r.choice([0, 0, 1, 3, -4]))
        if r.random() < 0.3:
            k["opt"]["skipctx"] = True
        k["part"] = r.random() < 0.5
        cases.append(k)
    c.conform(cases, name="fault-schedules", limit=60)


def prefixes(c):
    """a read that fails after every prefix of a text"""
    r = c.rng
    xs = ["http {\n server { listen 80; # c\n location / { any \"a b\" 'c\\'d'; } }\n}\n", "map $a $b { default 1; x \"y z\"; } blk { a0; } a1 ${x y};",
          "content_by_lua_block {\n x = {1} '}' \n}\nset_by_lua_block $v { y } a0;", "ign { a0; { } } a1 x; include f; blk { include g*; }", "a0 1;fl x; blk{nope{}}a1;"]
    g = gen.Gen(r, lua=True)
    xs += [g.text(depth=2, n=3)[:400] for _ in range(c.pick(3, 40))]
    lex, ps = [], []
    for x in xs:
        for i in range(len(x) + 1):
            lex.append(dict(op="lexw", x=x[:i], lua=r.random() < 0.7, fail="boom", cap=r.choice(CAPS), chunk=r.choice([0, 1, 2, -3])))
            k = gen.parse_case("", op="watch", lua=r.random() < 0.7, stop=r.random() < 0.4, ignore=["ign"] if r.random() < 0.7 else [], comments=r.random() < 0.5,
                               single=r.random() < 0.2, combine=r.random() < 0.1, strict=r.random() < 0.1)
            sub = r.random() < 0.4  # the broken file is an included one
            broken = dict(n="f" if sub else "m", k="read", x=x[:i], e="read: broken")
            k["files"] = [broken] + ([dict(n="m", k="ok", x="a0; include f; include g*; a1 x;", e="")] if sub else [dict(n="f", k="ok", x="a0;", e="")])
            k["globs"] = [dict(p="g*", e="", n=["f"])]
            k.update(main="m", faults=[], cap=r.choice(CAPS), chunk=r.choice([0, 1, 7, -5]))
            ps.append(k)
    c.conform(lex, name="read-fails-lexing", sample=1)
    c.conform(ps, name="read-fails-parsing", sample=0)


def trapped(rng):
    k = c14.files_case(rng)
    names = [g["file"] for g in k["p"]["config"]]
    if not names:
        return k
    d = "@/cwd" if k["dir"] == "" else k["dir"] if k["dir"].startswith("@") else "@/cwd/" + k["dir"]
    pre = set(parsing.clean(p["n"]) for p in k["pre"])
    traps = []
    for n in rng.sample(names, rng.choice([1, 1, 2]) if len(names) > 1 else 1):
        full = parsing.clean(n if n.startswith("@") else d + "/" + n)
        kind = rng.choice(["dir", "full", "file"])
        if kind == "file":
            full = parsing.pdir(full)
            if full in ("@", "@/cwd"):
                kind, full = "full", parsing.clean(n if n.startswith("@") else d + "/" + n)
        bad = [t["n"] for t in traps]
        all_ = pre | set(bad)
        if any(full == p or p.startswith(full + "/") or full.startswith(p + "/") for p in all_) and not (kind == "dir" and all(not full.startswith(p + "/") and p != full and not p.startswith(full + "/") for p in all_)):
            continue
        if full.startswith(".."):
            continue
        traps.append(dict(n=full, x=kind))
    k["trap"] = traps
    return k


def spoil(r, p):
    """an include of a configuration that is not there, in any of them, and some directives behind each include"""
    if not p["config"]:
        return
    more = [c11.d(x, ["z"]) for x in "abc"]

    def go(ds):
        out = []
        for x in ds:
            if x.get("b"):
                x = dict(x, b=go(x["b"]))
            out += [x] + more[:r.choice([0, 1, 2])]
        return out
    for c in p["config"]:
        c["parsed"] = go(c["parsed"])
    n = len(p["config"])
    chain = r.choice([0, 1, 2, n])
    for k in range(min(chain, n - 1)):
        p["config"][k]["parsed"].insert(0, c11.d("include", ["p"], inc=[k + 1]))
        p["config"][k]["parsed"] += more[:r.choice([0, 1, 3])]
    p["config"][min(chain, n - 1)]["parsed"].append(c11.d("include", ["p"], inc=[99]))


def run(c):
    r = c.rng
    model(c)
    prefixes(c)
    cs = []
    for _ in range(c.pick(300, 6000)):
        p = parsing.project(r, lua=r.random() < 0.4, missing=0.4)
        p.update(op="watch", cap=r.choice(CAPS), chunk=r.choice([0, 1, 5, -3]), faults=[], part=r.random() < 0.5)
        for _ in range(r.choice([0, 1, 1, 2])):
            o = r.choice(["open", "open", "glob"])
            p["faults"].append(dict(o=o, n=r.choice(p["files"])["n"] if o == "open" else "", k=r.choice([1, 1, 2, 3])))
        cs.append(p)
    for _ in range(c.pick(30, 400)):
        k = parsing.many(r, combine=r.random() < 0.3, stop=r.random() < 0.3)
        k.update(op="watch", cap=r.choice(CAPS), chunk=r.choice([0, 1, 5, -3]), faults=[], part=r.random() < 0.5)
        for _ in range(r.choice([0, 1])):
            k["faults"].append(dict(o="open", n=r.choice(k["files"])["n"], k=r.choice([1, 2])))
        cs.append(k)
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(120, 3000), 0):
            k = gen.parse_case(x, op="watch", lua=lua, stop=r.random() < 0.5, ignore=r.choice([[], ["blk", "any"]]))
            k.update(cap=r.choice(CAPS), faults=[])
            cs.append(k)
            cs.append(dict(op="lexw", x=x, lua=lua, fail="", cap=r.choice(CAPS), chunk=0))
    for x in gen.long_texts(r, None):
        for stop in (False, True):
            for y in (x, "nope 1;" + x, "a0 1;" + x, "a0;}" + x, "blk { a0 x; " + x):
                k = gen.parse_case(y, op="watch", stop=stop, strict=True)
                k.update(cap=r.choice(CAPS), faults=[])
                cs.append(k)
    c.conform(cs, name="projects", sample=1, limit=60)
    c.conform([c09.real(r) for _ in range(c.pick(80, 1500))], name="real-files", sample=0)
    ks = [c11.odd(r) for _ in range(c.pick(250, 4000))]
    for k in ks[::2]:
        spoil(r, k["p"])
    c.conform([dict(op="combinew", p=k["p"]) for k in ks], name="combining", sample=0)
    ts = [trapped(r) for _ in range(c.pick(250, 4000))]
    for _ in range(c.pick(60, 800)):
        k = c14.into_case(r)
        ts += [dict(k, fail=i) for i in range(0, 12)]
    c.conform(ts, name="writing", sample=1)
    c.notes["trapped"] = sum(1 for t in ts if t.get("trap"))
