"""C17: results are functions of the arguments.  Every schedule of the goroutines' model is replayed; many
capacities and chunkings; parallel calls under the race detector."""
from . import gen, c01, c14, parsing

INV = ["TypeOK", "Order", "Causal", "Function", "Clean", "NeverStuck", "NoDeadlock"]
CAPS = [0, 1, 2, 3, 7, 64, 2048]
CHUNKS = [0, 1, 2, 3, 5, 17, 4095, 4096, 4097, -1, -2, -7, -5000]

# texts with 0..4 tokens, by the place of the tokens the Lua lexer makes
TEXTS = {
    (0, 0, 0): ["", " \n", "\r\n\n"],
    (1, 0, 0): ["}", "# c", ";", "{"],
    (2, 0, 0): ["a;", "\"q q\"\n;", "'x';", "#c\n#d\n", "abc\ndef"],
    (3, 0, 0): ["a b;", "a \"b\nc\"\n;", "a{}", "#c\na;", "a {\nb", "x${y z};#e"],
    (4, 0, 0): ["a b c;", "a{b;", "a #c\nb;", "a;b\n;", "a\r\n{}}", "\"\" '' \"\"{"],
    (3, 2, 3): ["content_by_lua_block {\nx = {}\n}", "log_by_lua_block{}"],
    (4, 2, 3): ["content_by_lua_block {x}#c\n", "rewrite_by_lua_block {'}'}}"],
    (4, 3, 4): ["set_by_lua_block $v {y}", "#c\nlog_by_lua_block {}"],
    (2, 2, 2): ["content_by_lua_block x", "log_by_lua_block;"],
    (1, 1, 1): [],
}


def model(c):
    n = c.pick(4, 5)
    c.model("MC_Chan", dict(MaxTok=n, MaxChunk=c.pick(3, 4), MaxCap=c.pick(3, 4), Drains=True, Export=False), INV, ["Ends"], extra="VIEW HistView\n", name="goroutines")
    r = c.tlc("MC_Chan", c.cfg(dict(MaxTok=3, MaxChunk=2, MaxCap=1, Drains=False, Export=False), ["NeverStuck"]))
    if r["rc"] == 0 or "NeverStuck is violated" not in r["text"]:
        raise c.ToolError("the goroutines' model without draining should get stuck")
    vec = c.model("MC_Chan", dict(MaxTok=4, MaxChunk=3, MaxCap=2, Drains=True, Export=True), INV + ["ExportVec"], name="schedules")
    out, seen = [], set()
    for l in vec:
        v = c.vec(l)
        key = (tuple(v["s"]), tuple(sorted(v["p"].items())))
        if key not in seen:
            seen.add(key)
            out.append(v)
    return out


def schedules(c, scheds):
    by, byg = {}, {}
    for v in scheds:
        p = v["p"]
        s = dict(s=v["s"], cap=p["cap"], chunk=p["chunk"])
        if p["give"] == 0:
            by.setdefault((p["tok"], p["from"], p["to"]), []).append(s)
        byg.setdefault((p["tok"], p["give"]), []).append(s)
    r = c.rng
    cases, n = [], 0
    for key, ss in sorted(by.items()):
        for x in TEXTS.get(key, []):
            for i in range(0, len(ss), 60):
                cases.append(dict(op="gaten", x=x, lua=key[1] > 0, scheds=ss[i:i + 60]))
                n += len(ss[i:i + 60])
    more = c01.texts(c, False, 20, 0) + c01.texts(c, True, 20, 0)
    for x in r.sample(more, c.pick(40, 150)):
        cases.append(dict(op="gaten", x=x, lua=True, scheds=r.sample(sum(by.values(), []), 40)))
    c.conform(cases, name="scheduled-lexing", sample=1)
    # the parser gives up (or not) at any token
    ps = []
    for key, ss in sorted(byg.items()):
        for x in ["a1 b; a0 c; fl off;", "blk { a0; a1; a1 x; } a0;", "a0; }", "nope { a0 1; } a1;", "content_by_lua_block {x} a0 1;", "a0; content_by_lua_block", "#c\na0 #d\n; a0 1; map a b { x; y z; }"]:
            k = gen.parse_case(x, op="gatep", lua=True, stop=key[1] > 0, cb=True, strict=r.random() < 0.5)
            k["scheds"] = r.sample(ss, min(len(ss), c.pick(12, 60)))
            ps.append(k)
    c.conform(ps, name="scheduled-parsing", sample=0)
    c.notes["schedules"] = n


def run(c):
    scheds = model(c)
    schedules(c, scheds)
    r = c.rng
    cs = []
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(250, 5000), c.pick(100, 2000)):
            vs = [dict(cap=2048, chunk=0)] + [dict(cap=r.choice(CAPS), chunk=r.choice(CHUNKS)) for _ in range(6)]
            cs.append(dict(op="lexv", x=x, lua=lua, fail="boom" if r.random() < 0.1 else "", vars=vs))
    for x in gen.long_texts(r, None):
        vs = [dict(cap=2048, chunk=0)] + [dict(cap=a, chunk=b) for a in (0, 1, 64) for b in (0, 1, 4095, 4097, -3)]
        cs.append(dict(op="lexv", x=x, lua=False, fail="", vars=vs))
    c.conform(cs, name="capacities-and-chunks", sample=1)
    ms = []
    for _ in range(c.pick(200, 4000)):
        p = parsing.project(r, lua=r.random() < 0.3)
        m = parsing.variants(p, [{}] * 5)
        for v in m["vars"][1:]:
            v["cap"], v["chunk"] = r.choice(CAPS), r.choice(CHUNKS)
        ms.append(m)
    c.conform(ms, name="projects", sample=0)
    # parallel calls, under the race detector
    ps = []
    for k in range(c.pick(40, 400)):
        lua = r.random() < 0.5
        p = parsing.project(r, lua=lua, broken=0.2, missing=0.1)
        p["op"], p["opt"]["cb"] = "par", False
        p["opt"]["ignore"] = r.choice([[], ["a1"], ["blk", "a2"]])
        g = gen.Gen(r, lua=lua)
        p["xs"] = [g.text(depth=3) if r.random() < 0.7 else g.mutate(g.text(depth=2)) for _ in range(4)]
        p["words"] = [g.word() for _ in range(6)] + ["", "#", "a b"]
        p["build"] = c14.layout(r, lua)
        p["times"] = c.pick(3, 6)
        p["cap"] = r.choice(CAPS)
        if r.random() < 0.3:
            p["deflt"] = True
        ps.append(p)
    c.conform(ps, name="parallel", race=True, limit=120, sample=1)
    # the first calls of a process, at once
    cold = []
    for p in ps[:c.pick(24, 200)]:
        cold.append(dict(p, cold=True, times=2, build=dict(c14.layout(r, p["opt"]["lua"]), indent=r.choice([2, 50, 100, 130]))))
    c.conform(cold, name="parallel-cold", race=True, limit=120, sample=0, fresh=True)
