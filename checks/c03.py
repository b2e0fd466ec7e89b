"""C03: the tree mirrors the text."""
from . import gen, c01, parsing


def run(c):
    for kind, n in (("tokens", c.pick(5, 6)), ("stmts", c.pick(5, 6)), ("ifs", c.pick(5, 6)), ("ifq", c.pick(4, 5)), ("ifb", c.pick(5, 6)), ("words", c.pick(4, 6))):
        cf = parsing.Confs(c, kind, n)
        bad = cf.replay("par")
        if bad:
            c.conform([cf.case(x) for x in bad], name="suspects", sample=0)
        bad = cf.replay("ncm") if c.thorough else []
        if bad:
            c.conform([cf.case(x, "ncm") for x in bad], name="suspects", sample=0)
    ps = []
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(400, 8000), c.pick(50, 1000)):
            r = c.rng
            ps.append(gen.parse_case(x, lua=lua, comments=r.random() < 0.5, strict=r.random() < 0.1, stop=r.random() < 0.2,
                                     skipctx=r.random() < 0.4, skipargs=r.random() < 0.4))
    for x in parsing.conditions(c.rng, c.pick(500, 8000)):
        ps.append(gen.parse_case(x, strict=c.rng.random() < 0.1, comments=c.rng.random() < 0.3, skipctx=c.rng.random() < 0.4, skipargs=c.rng.random() < 0.5))
    for x in gen.long_texts(c.rng, c.pick(6, None)):
        ps.append(gen.parse_case(x))
    c.conform(ps, name="structured")
    c.conform([parsing.anycase(c.rng, combine=False) for _ in range(c.pick(400, 8000))], name="any-options", sample=0)
    c.conform(parsing.projects(c, c.pick(100, 2000), broken=0.05, missing=0), name="projects", sample=0)
