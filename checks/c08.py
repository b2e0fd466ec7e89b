"""C08: stop-on-error and collecting agree."""
from . import gen, c01, parsing


def run(c):
    for kind, n in (("stmts", c.pick(5, 6)), ("maps", c.pick(4, 6)), ("tokens", c.pick(4, 5)), ("lua", c.pick(4, 5)), ("includes", c.pick(4, 5))):
        cf = parsing.Confs(c, kind, n, out=("par", "stp"))
        bad = set(cf.replay("par")) | set(cf.replay("stp"))
        if bad:
            c.conform([parsing.variants(cf.case(x), [dict(stop=False), dict(stop=True)]) for x in sorted(bad, key=lambda x: (len(x), x))[:200]], name="suspects", sample=0)
    ps = []
    two = [dict(stop=False), dict(stop=True)]
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(400, 8000), 0):
            r = c.rng
            if r.random() < 0.5:
                x = gen.Gen(r, lua=lua).mutate(x)
            ps.append(parsing.variants(gen.parse_case(x, lua=lua, comments=r.random() < 0.7, strict=r.random() < 0.3, cb=r.random() < 0.2, skipargs=r.random() < 0.25, skipctx=r.random() < 0.25,
                                                           single=r.random() < 0.1, ignore=r.choice([[], [], ["a1"], ["map", "a0"]])), two))
    c.conform(ps, name="structured")
    c.conform([parsing.variants(parsing.anycase(c.rng), two) for _ in range(c.pick(700, 10000))], name="any-options", sample=0)
    c.conform([parsing.variants(parsing.project(c.rng, lua=c.rng.random() < 0.2, options=dict(cb=False)), two) for _ in range(c.pick(400, 8000))], name="projects", sample=0)
    c.conform([parsing.variants(parsing.many(c.rng), two) for _ in range(c.pick(60, 800))], name="many-errors", sample=0)
