"""C06: parameters of map-like blocks."""
from . import gen, parsing


def mapcase(rng):
    g = gen.Gen(rng, noise=0.2, weird=0.2)

    def param(m):
        n = rng.choice(gen.SPECIALS.get(m, []) + ["x", "default", "if", "include", "a0", "a1", "blk", "server", "map", "~^a", "text/html", "\"q q\"", "''", "ign", "fl", "set", g.word(),
                                              "volatile", "hostnames", "ranges", "proxy_recursive", "auto_reload", "VOLATILE", "\"volatile\""])
        s = n + g.args(rng.choice([0, 1, 1, 1, 1, 2, 3])) + rng.choice([";", ";", ";", ";", " ;", "\n;", " {", "{ a; }", " { b { c d; } e; }", "", "; ;" if rng.random() < 0.1 else ";"])
        return s

    def mp(depth):
        m = rng.choice(gen.MAPS)
        s = m + g.args(rng.choice([0, 1, 2])) + " {" + g.gap()
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            s += param(m) + g.gap()
        return s + "}"
    s = g.gap()
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.55:
            s += mp(1)
        elif x < 0.7:
            s += "http {" + g.gap() + mp(1) + g.gap() + "server { " + mp(1) + " }" + "}"
        elif x < 0.8:
            s += rng.choice(["blk", "unk", "server", "http", "location x", "maps", "mapp a", "\"map\" a b"]) + " {" + g.gap() + param("x") + g.gap() + mp(1) + "}"
        else:
            s += g.stmt(1)
        s += g.gap()
    return gen.parse_case(s, comments=rng.random() < 0.7, strict=rng.random() < 0.2, cb=rng.random() < 0.3, stop=rng.random() < 0.1,
                          ignore=["ign", "x", "blk"] if rng.random() < 0.4 else [], skipargs=rng.random() < 0.2, skipctx=rng.random() < 0.2,
                          files=[dict(n="nginx.conf", k="ok", x=s, e="")])


def run(c):
    cf = parsing.Confs(c, "maps", c.pick(5, 6), out=("par", "ign", "stp"))
    for v in ("par", "ign", "stp"):
        bad = cf.replay(v)
        if bad:
            c.conform([cf.case(x, v) for x in bad], name="suspects", sample=0)
    # every block, every parameter shape
    names = ["x", "volatile", "hostnames", "ranges", "proxy_recursive", "auto_reload", "if", "include", "default", "'q'", "server", "a0", "http", "map"]
    cases = []
    blocks = gen.MAPS + ["blk", "unk"]
    for m in blocks:
        for n in names:
            for k in (0, 1, 2, 3, 8, 9, 40) if not c.thorough else range(0, 18):
                for e in (";", " {a;}", "{}", "}"):
                    cases.append("%s a b { %s%s%s }%s" % (m, n, " w" * k, e, " c;"))
    src = gen.std_source()
    pc = []
    for x in cases:
        pc.append(gen.parse_case(x, src=src, ignore=["server"]))
    c.conform(pc, name="parameters")
    many = []
    for _ in range(c.pick(15, 200)):
        m = c.rng.choice(gen.MAPS)
        n = c.rng.choice([17, 40, 130, 300])
        x = "%s a b { %s }" % (m, "\n".join(c.rng.choice(["x%d 1;", "include f%d;", "\"q %d\" w;", "bad%d 1 2;", "b%d {a;}", "#%d\n", "if%d 2;", "volatile; #%d", "server %d;", "a0 %d;"]) % i for i in range(n)))
        many.append(gen.parse_case(x, src=src, ignore=["server"], files=[dict(n="nginx.conf", k="ok", x=x, e="")]))
    c.conform(many, name="many-parameters", sample=0)
    c.conform([parsing.anycase(c.rng) for _ in range(c.pick(300, 6000))], name="any-options", sample=0)
    c.conform([mapcase(c.rng) for _ in range(c.pick(700, 15000))], name="structured")
