"""C02: line numbers of tokens, directives and errors."""
import json
from . import gen, c01, parsing

def run(c):
    cmp_ = lambda a, b: [t["l"] for t in a] == [t["l"] for t in b]
    c01.exhaustive(c, ["a", "\n", "\\\n", '"', " ", ";", "{", "}", "#", "\r\n", "'", "${"], c.pick(4, 6), False, "all-texts", cmp_)
    c01.exhaustive(c, ["content_by_lua_block", "set_by_lua_block ", "$a", "\n", "{", "}", " ", ";", '"', "\\\n"], c.pick(4, 6), True, "all-texts-lua", cmp_)
    xs = c01.texts(c, False, c.pick(400, 8000), c.pick(300, 8000))
    c.conform([c01.lexcase(x) for x in xs], name="structured")
    c.conform([c01.lexcase(x, lua=True) for x in c01.texts(c, True, c.pick(300, 6000), c.pick(50, 2000))], name="structured-lua", sample=0)
    c.conform([c01.lexcase(x) for x in gen.long_texts(c.rng, c.pick(4, None))], name="long", sample=0)
    ps = []
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(250, 5000), c.pick(50, 1000)):
            ps.append(gen.parse_case(x, lua=lua, strict=c.rng.random() < 0.2, comments=c.rng.random() < 0.8, stop=c.rng.random() < 0.2))
    c.conform(ps, name="parse")
    c.conform(parsing.projects(c, c.pick(150, 3000)), name="projects", sample=0)
