"""C21: options that only filter."""
from . import gen, c01, parsing


def cut_cases(rng):
    """The same text with some directives ignored, and with them cut out."""
    g = gen.Gen(rng, noise=0.15, weird=0.1, maxblock=3)
    ign = rng.sample(["ign", "igb", "a1", "blk", "if", "any", "a4"], rng.choice([1, 2, 3]))
    # names that only look like an ignored one
    near = [f(n) for n in ign for f in (str.upper, str.capitalize, lambda n: n[:-1], lambda n: n + "s", lambda n: "x" + n, lambda n: n + ".", lambda n: n.replace("i", "\u0131"))]
    near = [n for n in near if n not in ign and n not in ("i", "a", "")]

    words = ["x", "y1", "$a", "on", "\"q q\"", "'}'", "\"{\"", "/p/q", "\"a;b\"", "~^z", "''"]

    def safe(depth):
        """what an ignored directive may contain: anything whose braces and quotes are complete"""
        s = g.gap()
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            s += rng.choice(["a7 1", "include zz", "include f", "a0", "fl maybe", "nope", "if (", "a1 '}'", "map a b", "server", "#c\n x", "a #}\n b", "\"inc\" q"])
            s += rng.choice([";", ";", ";", " " + ";"]) if depth <= 0 or rng.random() < 0.7 else " {" + safe(depth - 1) + "}"
            s += g.gap()
        return s

    def body(depth):
        full = cut = g.gap()
        for _ in range(rng.choice([0, 1, 2, 3])):
            x = rng.random()
            gap = g.gap()
            if x < 0.4:
                n = rng.choice(ign)
                full += rng.choice(["%s", "%s", "\"%s\"", "'%s'"]) % n + "".join(g.sep() + rng.choice(words) for _ in range(rng.choice([0, 1, 2, 9])))
                full += g.sp() + rng.choice([";", "{" + safe(2) + "}"])
            elif x < 0.55 and depth > 0:
                h = rng.choice(["keep", "http", "server", "unk"])
                a, b = body(depth - 1)
                full += h + " {" + a + "}"
                cut += h + " {" + b + "}"
            elif x < 0.65:
                s = "map $a $b { " + "".join(rng.choice([n + " 1;", "x y;", "include f;", "#c\n", n + " 1 2;", n + " { a; }"]) for n in ign) + "}"
                full += s
                cut += s
            else:
                s = rng.choice(["a0;", "a2 1 2;", "one x;", "fl on;", "#c\n", "a0 1;", "keep;", "xp (a);", "include g;"] + [n + rng.choice([";", " x;", " { a0; }"]) for n in rng.sample(near, 2)])
                full += s
                cut += s
            full += gap
            cut += gap
        return full, cut
    a, b = body(3)
    fa, fb = body(2)

    def files(x, y):
        return [dict(n="m.conf", k="ok", x=x, e=""), dict(n="f", k="ok", x="a0; a1 2;", e=""), dict(n="g", k="ok", x=y, e="")]
    base = gen.parse_case("", name="m.conf", files=files(a, fa), strict=rng.random() < 0.1, comments=False, stop=rng.random() < 0.2)
    d = dict(base, op="multi", kind="ignore")
    d["vars"] = [dict(opt=dict(base["opt"], ignore=ign), cap=2048, chunk=0, files=files(a, fa)),
                 dict(opt=dict(base["opt"], ignore=ign if rng.random() < 0.3 else []), cap=2048, chunk=0, files=files(b, fb))]
    return d


def run(c):
    two = [dict(comments=True), dict(comments=False)]
    for kind, n in (("stmts", c.pick(5, 6)), ("maps", c.pick(4, 6)), ("nginx", c.pick(4, 5)), ("includes", c.pick(4, 5))):
        cf = parsing.Confs(c, kind, n, out=("par", "ncm", "ign", "sng"))
        bp = set(cf.replay("par"))
        for v, kd, vs in (("ncm", "comments", two), ("sng", "single", [dict(single=False), dict(single=True)])):
            bad = bp | set(cf.replay(v))
            if bad:
                c.conform([parsing.variants(cf.case(x), vs, kind=kd) for x in sorted(bad, key=lambda x: (len(x), x))[:200]], name="suspects", sample=0)
        bad = cf.replay("ign")
        if bad and not set(bad) <= bp:
            # ignoring is the model's filter; judged by what the model says of the text
            c.conform([dict(cf.case(x, "ign"), kind="ignored") for x in bad if x not in bp], name="suspects", sample=0)
    cs = []
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(300, 6000), 0):
            r = c.rng
            case = gen.parse_case(x, lua=lua, strict=r.random() < 0.2, stop=r.random() < 0.2)
            cs.append(parsing.variants(case, two, kind="comments"))
            cs.append(parsing.variants(case, [dict(single=False), dict(single=True)], kind="single"))
    for _ in range(c.pick(150, 3000)):
        p = parsing.project(c.rng, lua=c.rng.random() < 0.2, options=dict(cb=False, combine=False))
        cs.append(parsing.variants(p, two, kind="comments"))
        cs.append(parsing.variants(p, [dict(single=False), dict(single=True)], kind="single"))
    for _ in range(c.pick(300, 6000)):
        cs.append(parsing.variants(parsing.anycase(c.rng, combine=False), two, kind="comments"))
        cs.append(parsing.variants(parsing.anycase(c.rng, combine=False), [dict(single=False), dict(single=True)], kind="single"))
    c.conform(cs, name="structured")
    c.conform([cut_cases(c.rng) for _ in range(c.pick(400, 8000))], name="cut-out", sample=1)
