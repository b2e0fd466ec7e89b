"""C16: embedded Lua.  Every short text of Lua pieces, with and without the support registered; longer texts; building."""
from . import gen, c01, c12, c14, parsing

PIECES = ["content_by_lua_block", "set_by_lua_block", " ", "{", "}", "'", "x", ";", "\n", "\"", "#"]
PIECES2 = ["rewrite_by_lua_block {", "set_by_lua_block $a", "init_by_lua_block", "a ", "{", "}", "'", "\"", "\\", "\r\n", ";"]
PIECES3 = ["log_by_lua_block", "b{", " ", "{", "}", ";", "\t", "#", "'", "$v"]


def names_case(rng):
    """every name of a Lua block, in the places a name can have"""
    g = gen.Gen(rng, lua=True, noise=0.2, weird=0.1, maxblock=3)
    out = []
    for n in gen.LUA:
        v = " $v" if n == "set_by_lua_block" else ""
        code = g.luacode()
        x = rng.choice(["%s%s {%s}", "%s%s{%s}", "http { %s%s {%s} }", "a0;%s%s\n{%s}a0;", "#c\n%s%s {%s}#d\n", "a0; # %s%s {%s}\n a1 x;", "any x %s%s; blk {%s}",
                        "any \"%s%s {\"; blk{%s}", "\"%s\"%s x; blk {%s}", "any '%s' %s; blk{%s}", "blk { any\n%s%s; } blk {%s}", "%s%s #c\n{%s}", "any ${%s%s {%s} b};", "x%s%s {%s}", "%s_%s {%s}"])
        out.append(x % (n, v, code if rng.random() < 0.8 else "a0;"))
    return out


def deep(rng):
    """code nested deeper than any fixed bound, and long strings in it"""
    out = []
    for n in (5, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, rng.randint(300, 1200)):
        o, e = rng.choice([("{", "}"), ("{ ", "}"), ("{\n", "}\n"), ("a{", "};"), ("{'}'", "}"), ("{\"{\"", "}")])
        v = rng.choice(["", "", "\";\"", "'{'", "-- x\n"])
        out.append(rng.choice(["content_by_lua_block {%s}\na0;", "http{init_by_lua_block{%s}} a0;", "set_by_lua_block $a {%s}a1 x;"]) % (o * n + v + e * n))
    for n in (64, 256, 1024, 3000):
        q = rng.choice("'\"")
        out.append("log_by_lua_block { x = %s%s%s }a0;" % (q, rng.choice(["{", "}", "\\" + q, "#", ";"]) * n, q))
    return out


def run(c):
    full = lambda a, b: [(t["v"], t["q"], t["e"] != "") for t in a] == [(t["v"], t["q"], t["e"] != "") for t in b]
    c01.exhaustive(c, PIECES, c.pick(5, 6), True, "lua-texts", full)
    c01.exhaustive(c, PIECES2, c.pick(4, 5), True, "lua-statements", full)
    c01.exhaustive(c, PIECES3, c.pick(4, 5), True, "lua-blocks", full)
    c01.exhaustive(c, PIECES2, c.pick(4, 5), False, "unregistered", full)
    cf = parsing.Confs(c, "lua", c.pick(5, 6), built=True)
    bad = cf.replay("par")
    if bad:
        c.conform([cf.case(x) for x in bad], name="suspects", sample=0)
    cf.vecs = [v for v in cf.vecs if v["bt"]]
    outs = cf.run("par", op="roundn", extra=dict(build=dict(c12.LAYOUTS[0], lua=True, ext=[])))
    bad = [v["x"] for v, o in zip(cf.vecs, outs) if o is None or not c12.holds(o) or o["built"][:1] != v["bt"]]
    c.traces += len(outs)
    c.stage("lua-confs:built", replayed=len(outs), mismatches=len(bad))
    if bad:
        bad.sort(key=len)
        c.conform([dict(cf.case(x, op="round"), build=dict(c12.LAYOUTS[0], lua=True, ext=[])) for x in bad[:150]], name="suspects", sample=0)
    r = c.rng
    xs = c01.texts(c, True, c.pick(600, 12000), 0)
    for _ in range(c.pick(12, 200)):
        xs += names_case(r)
    for _ in range(c.pick(1, 12)):
        xs += deep(r)
    g = gen.Gen(r, lua=True)
    for n in (4090, 4096, 9000):
        xs.append("content_by_lua_block {" + "x = {}\n" * (n // 7) + "}\na0;")
    c.conform([c01.lexcase(x, lua=r.random() < 0.9) for x in xs], name="tokens")
    c.conform([gen.parse_case(x, lua=r.random() < 0.9, skipctx=r.random() < 0.3, skipargs=r.random() < 0.3) for x in xs], name="trees")
    c.conform([dict(gen.parse_case(x, lua=True, op="round", skipargs=r.random() < 0.5), build=c12.layout(r, True)) for x in xs[:c.pick(400, 8000)]], name="round-trips")
    c.conform([dict(op="build", parsed=c14.Trees(r, True).tree(2), build=c14.layout(r, True)) for _ in range(c.pick(150, 3000))], name="building", sample=0)
