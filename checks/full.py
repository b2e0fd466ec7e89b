"""Development aid: everything against the specification."""
from . import gen, c01, parsing
def run(c):
    ps = []
    for lua in (False, True):
        for x in c01.texts(c, lua, 1500, 300):
            r = c.rng
            ps.append(gen.parse_case(x, lua=lua, strict=r.random() < 0.2, comments=r.random() < 0.8, stop=r.random() < 0.2, combine=r.random()<.2, single=r.random()<.2, cb=r.random()<.3, skipctx=r.random()<.2, skipargs=r.random()<.2, ignore=r.sample(["a1","blk","any","if","map","include"], 2) if r.random()<.3 else []))
    c.conform(ps, prop="FULL", name="parse")
    c.conform(parsing.projects(c, 2000), prop="FULL", name="projects", sample=0)
