"""C07: collecting mode."""
from . import gen, c01, parsing


def run(c):
    for kind, n in (("stmts", c.pick(5, 6)), ("tokens", c.pick(4, 6)), ("nginx", c.pick(4, 5)), ("lua", c.pick(4, 5)), ("includes", c.pick(4, 5))):
        cf = parsing.Confs(c, kind, n)
        bad = cf.replay("par")
        if bad:
            c.conform([cf.case(x) for x in bad], name="suspects", sample=0)
    ps = []
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(400, 8000), 0):
            r = c.rng
            if r.random() < 0.6:
                x = gen.Gen(r, lua=lua).mutate(x)
            ps.append(gen.parse_case(x, lua=lua, comments=r.random() < 0.7, strict=r.random() < 0.4, cb=True,
                                     ignore=["a1", "blk"] if r.random() < 0.2 else []))
    c.conform(ps, name="structured")
    c.conform([parsing.anycase(c.rng, stop=False) for _ in range(c.pick(500, 10000))], name="any-options", sample=0)
    c.conform([parsing.project(c.rng, lua=c.rng.random() < 0.2, broken=0.5, missing=0.15, options=dict(stop=False, cb=True, combine=c.rng.random() < 0.1))
               for _ in range(c.pick(400, 8000))], name="projects", sample=0)
    c.conform([parsing.many(c.rng, cb=c.rng.random() < 0.5, combine=c.rng.random() < 0.2) for _ in range(c.pick(60, 800))], name="many-errors", sample=0)
