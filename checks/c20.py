"""C20: every call returns.  Every short text, by characters and by tokens, every small payload; truncated, mutated,
repetitive and long texts; odd payloads and JSON; under every kind of option set, through the whole pipeline."""
import json
from . import gen, core, c01, c09, c11, c14, c15, parsing

NAMES = ["include ", "if ", "map x ", "location ", "listen ", "server ", "http ", "server_name ", "types "]
STD = [dict(), dict(stop=True, cb=True), dict(lua=True, comments=False), dict(combine=True, strict=True, lua=True), dict(skipctx=True, skipargs=True, single=True),
       dict(ignore=["a", "include", "blk", "#"], skipargs=True, lua=True, comments=True, cb=True)]


def variants(r, n=None, big=False):
    vs = [dict(opt=gen.opt(**o), chunk=0, deflt=False) for o in STD]
    vs += [dict(opt=gen.opt(), chunk=0, deflt=True), dict(opt=gen.opt(lua=True, stop=True), chunk=0, deflt=True)]
    if not big:
        for _ in range(3):
            o = {k: r.random() < 0.5 for k in ("stop", "combine", "single", "comments", "strict", "skipctx", "skipargs", "lua", "cb")}
            vs.append(dict(opt=gen.opt(**o), chunk=r.choice([0, 1, 3, -2]), deflt=r.random() < 0.5))
    return vs if n is None else r.sample(vs, n)


AUX = [dict(n="f", k="ok", x="a0;include m.conf;", e=""), dict(n="g", k="ok", x="blk {a1 b; include h;", e=""), dict(n="h", k="ok", x="a1 b; blk {include k;}", e=""), dict(n="k", k="ok", x="", e=""),
       dict(n="s", k="stuck", x="", e=""), dict(n="r", k="read", x="a1 b", e="boom"), dict(n="o", k="open", x="", e="no"), dict(n="a", k="ok", x="include b; a1 x;", e=""), dict(n="b", k="ok", x="a0 #c\n;", e="")]
GLOBS = [dict(p="*", e="", n=["a", "b", "zz", "k"]), dict(p="[", e="bad pattern", n=[]), dict(p="*.c", e="", n=["h", "k"])]


def total(r, xs=(), **kw):
    k = gen.parse_case("", name="m.conf", op="total")
    k.update(xs=list(xs), files=[], aux=AUX, globs=GLOBS, vars=variants(r), more=False, pay=True, cap=r.choice([0, 1, 64, 2048]))
    k.update(kw)
    return k


class Runner:
    """runs batches; what is wrong with a batch is found by running its inputs one by one"""

    def __init__(self, c):
        self.c = c

    def batch(self, cases, name, limit=30, split=True):
        c = self.c
        obs = c.run_cases(cases, limit=limit, shards=None)
        calls, ins, slow, bad = 0, 0, 0.0, []
        for k, o in zip(cases, obs):
            if o.get("k") == "done":
                calls += o["calls"]
                ins += o["inputs"]
                slow = max(slow, float(o["slowest"]))
                if o["bad"]:
                    bad.append((k, o))
            else:
                bad.append((k, o))
        c.traces += ins
        c.stage(name, batches=len(cases), inputs=ins, calls=calls, slowest_call_s=slow, batches_with_trouble=len(bad))
        if cases and len(c.samples) < 5:
            k = cases[len(cases) // 2]
            t = json.dumps(k.get("xs") or k.get("enum") or k.get("reps") or k.get("ps"))
            c.sample({"stage": name, "inputs": t[:600], "calls": obs[len(cases) // 2].get("calls")})
        for k, o in bad[:6]:
            if len(c.violations) >= 3:
                break
            self.single(k, o, name, limit)

    def single(self, k, o, name, limit):
        c = self.c
        field = "enum" if k.get("enum") else next((f for f in ("xs", "reps", "ps") if k.get(f)), None)
        if field == "enum":
            xs = [x for x in texts(k["enum"]["pieces"], k["enum"]["len"], "".join(k["enum"]["pre"]))]
            k = {f: v for f, v in dict(k, xs=xs).items() if f != "enum"}
            field = "xs"
        ins = k[field]
        if o.get("k") == "done":  # panics the driver caught: it says which input
            ins = [ins[b["i"]] for b in o["bad"]]
        while len(ins) > 64:  # a crash or a hang: bisect
            parts = [ins[i:i + (len(ins) + 15) // 16] for i in range(0, len(ins), (len(ins) + 15) // 16)]
            os_ = c.run_cases([dict(k, **{field: p}) for p in parts], limit=limit)
            hit = [p for p, q in zip(parts, os_) if q.get("k") != "done" or q["bad"]]
            if not hit:
                break
            ins = hit[0]
        one = [dict(k, **{field: [x]}) for x in ins[:64]]
        one.sort(key=lambda q: len(json.dumps(q[field])))
        c.conform(one, name=name + ":singles", sample=0, limit=limit)


def texts(pieces, n, pre=""):
    yield pre
    if n:
        for p in pieces:
            yield from texts(pieces, n - 1, pre + p)


def exhaustive(c, run):
    """the texts of the character model and of the token models"""
    vec = [w["x"] for w in c01.vectors(c, c01.BASE, c.pick(4, 5), True, "model-texts")]
    r = c.rng
    B = 500
    if not c.violations:
        run.batch([total(r, vec[i:i + B]) for i in range(0, len(vec), B)], "model-texts:calls")
    # longer ones: the driver enumerates all continuations of each prefix
    n = c.pick(2, 3)
    en = []
    for kind, pieces in sorted(parsing.CONF_PIECES.items()):
        for a in pieces:
            for b in pieces:
                en.append(total(r, enum=dict(pieces=pieces, pre=[a, b], len=n), vars=variants(r, 4)))
    if not c.violations:
        run.batch(en, "token-texts:calls", limit=30)
    wide = c01.WIDE + ["set_by_lua_block ", "content_by_lua_block "]
    if not c.violations:
        run.batch([total(r, enum=dict(pieces=wide, pre=[a, b], len=n), vars=variants(r, 3)) for a in wide for b in wide], "char-texts:calls", limit=30)
    heads = NAMES + ["if(", "geo ", "split_clients ", "content_by_lua_block ", "set_by_lua_block "]
    tails = ["", "a", "f", "*", "(", ")", "\"\"", "''", "$x ", "{", "}", ";", "#c\n", "\n"]
    if not c.violations:
        run.batch([total(r, enum=dict(pieces=tails, pre=[h, t], len=n), vars=variants(r, 4)) for h in heads for t in tails], "directives:calls", limit=30)


def repeats(c, run):
    """texts that repeat one thing: nesting, long words, many arguments, many files"""
    r = c.rng

    def rep(pre="", mid="", n=0, post="", m=0, end=""):
        return dict(pre=pre, mid=mid, n=n, post=post, m=m, end=end)
    N = c.pick(30000, 200000)
    flat = [rep(mid=m, n=N, end=e) for m in ("a0;", "a b;\n", "#c\n", "x ", "\"", "''", "\\", "$", "${", "}", ";", "# ", "\n", "\r\n", "\\\n", "any \"x\"#c\n;", "include f;", "include *;", "if ($a) {a0;}", "map a b {x y;}",
                                            "content_by_lua_block {x}", "set_by_lua_block $a {y}", "content_by_lua_block ", "if (", "\u3000", "a{}", "'\\''", "'a\nb' ", "a #c\n", "include z;", "blk {nope0;", "a0 1;") for e in ("", ";", "}", " {")]
    flat += [rep(pre=p, mid=m, n=N, end=e) for p in ("a ", "a \"", "a '", "# ", "a ${", "content_by_lua_block {", "content_by_lua_block {'", "set_by_lua_block ", "if (", "map x {", "a0 #", "nope0 ") for m in ("x", "x ", "\\\"", "\n", "{", "''", "x;", "#\n", "\u4e2d") for e in (";", "\";", "", "}")]
    flat = [dict(x, n=max(1, x["n"] // max(1, len(x["mid"])))) for x in flat]
    run.batch([total(r, reps=[x], vars=variants(r, 2, big=True), pay=True) for x in flat], "long-texts", limit=30)
    D = c.pick(400, 1000)
    deep = [rep(pre=p, mid=m, n=D, post=q, m=D + k, end=e) for p in ("", "http{server{") for m, q in (("a{", "}"), ("blk x {\n", "}\n"), ("location x {", "}"), ("if (a) {", "}"), ("map x y {", "}"), ("a{b c;", "}d;"), ("a0{", "}"), ("nope{", "}"), ("blk{include f;", "}"), ("content_by_lua_block {", "}"))
            for k in (0, -1, 1) for e in ("", "a0;")]
    run.batch([total(r, reps=[x], vars=variants(r, 3, big=True)) for x in deep], "deep-texts", limit=30)
    deeper = [rep(mid=m, n=n, post="}", m=n) for m in ("a{", "blk{a0;", "location x{") for n in c.pick([3000], [3000, 10000, 30000])]
    run.batch([total(r, reps=[x], vars=variants(r, 2, big=True), pay=False) for x in deeper], "deeper-texts", limit=100)


def ladder(n, wide, tail="a0;"):
    """every file includes the next one several times; combining it would be exponential, parsing it is not"""
    fs = [dict(n="f%d" % i, k="ok", x="".join(["include f%d;" % (i + 1), "blk{include f%d;}" % (i + 1)][k % 2] for k in range(wide)) if i < n else tail, e="") for i in range(n + 1)]
    return fs


def graphs(c, run):
    r = c.rng
    cs = []
    for n, w, pay in [(8, 2, True), (60, 2, False), (300, 3, False), (40, 12, False)]:
        for tail in ("a0;", "include f0;", "include f%d;" % n, "a0"):
            fs = ladder(n, w, tail)
            cs.append(total(r, [fs[0]["x"]], main="f0", aux=fs[1:], pay=pay, vars=[dict(v, opt=dict(v["opt"], combine=pay)) for v in variants(r, 4, big=True)]))
    names = ["g%d" % i for i in range(10)]
    for tail in ("", "include g0;"):  # everything includes everything after it
        fs = [dict(n=nm, k="ok", x="".join("include %s;" % m for m in names[i + 1:]) + (tail if i == 9 else ""), e="") for i, nm in enumerate(names)]
        cs.append(total(r, [fs[0]["x"]], main="g0", aux=fs[1:], pay=not tail, vars=variants(r, 3, big=True)))
    for _ in range(c.pick(60, 1500)):
        k = c09.wide(r) if r.random() < 0.3 else parsing.project(r, lua=r.random() < 0.4, broken=0.5, missing=0.5)
        main = [f for f in k["files"] if f["n"] == k["main"]][0]
        cs.append(total(r, [main["x"]], main=k["main"], aux=[f for f in k["files"] if f is not main], globs=k["globs"]))
    for s in ("s", "r", "o", "m.conf", "[", "*", "", "zz", "''", ".", "/", "..", "~", "\\"):
        cs.append(total(r, ["include %s;" % s, "include %s" % s, "blk { include %s; }" % s, "include '%s';include %s {}" % (s, s)], aux=AUX + [dict(n="m.conf", k="stuck", x="", e="")]))
    cs.append(total(r, ["never read"], main="s"))
    run.batch(cs, "files", limit=30)


def structured(c, run):
    r = c.rng
    xs = []
    for lua in (False, True):
        xs += c01.texts(c, lua, c.pick(500, 20000), c.pick(500, 20000))
        g = gen.Gen(r, lua=lua)
        for _ in range(c.pick(6, 60)):  # every prefix of a text: it may end anywhere
            x = g.text(depth=3)[:400]
            xs += [x[:i] for i in range(len(x))]
    names = [l.strip() for l in NAMES] + ["proxy_pass", "access_log", "ssl", "worker_processes", "user", "split_clients", "geo", "set", "return", "rewrite", "allow", "js_import", "otel_exporter", "mgmt", "content_by_lua_block"]
    for _ in range(c.pick(300, 10000)):
        g = gen.Gen(r, lua=True, names=names)
        t = g.text(depth=3)
        xs.append(t if r.random() < 0.5 else g.mutate(t, 4))
    r.shuffle(xs)
    B = 60
    run.batch([total(r, xs[i:i + B], more=True) for i in range(0, len(xs), B)], "structured")


D = c11.d
WORDS = ["", "x", "#", "a b", "if", "include", "map", "(", ")", "content_by_lua_block", "set_by_lua_block", "'", "\\", "\"", "\n", "{", ";", "$", "${", "e\u0301", "\u0000", "lua", "on"]


def odd(r):
    """any payload of well-formed values"""
    def ds(depth):
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            out.append(dict(D(r.choice(WORDS), [r.choice(WORDS) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 12]))], inc=None if r.random() < 0.6 else [r.choice([-1, 0, 1, 2, 3, 99, -(1 << 40), 1 << 40]) for _ in range(r.choice([0, 1, 2]))],
                              block=None if depth == 0 or r.random() < 0.5 else ds(depth - 1), comment=None if r.random() < 0.7 else r.choice(WORDS), m=r.random() < 0.15, l=r.choice([0, 1, -5, 7, 1 << 40]), f=r.choice(["", "f"])), z=r.random() < 0.5))
        return out

    def e(w):
        return dict(w=w, l=r.choice([0, 3, -1]), f=r.choice(["", "f"]), s=r.choice(WORDS), b=r.choice(["", "main"]), t=w)
    cfgs = [dict(file=r.choice(["", "f", "/x", ".."]), st=r.choice(["", "ok", "failed", "?"]), errs=[dict(l=r.choice([0, 2]), err=e(r.choice(["w", "", "<nil>", "\u2028"]))) for _ in range(r.choice([0, 0, 1, 2]))], parsed=ds(3))
            for _ in range(r.choice([0, 1, 1, 2, 3]))]
    errs = [dict(file="f", l=r.choice([0, 2]), err=e(r.choice(["w", "", "<nil>"])), cb=r.choice(["", "cb"])) for _ in range(r.choice([0, 0, 1]))]
    return dict(st=r.choice(["", "ok", "failed"]), errs=errs, config=cfgs)


def payloads(c, run):
    r = c.rng
    f = c._tmp("setup.json")
    items = c11.ITEMS[:11] if not c.thorough else c11.ITEMS
    with open(f, "w") as fh:
        json.dump(dict(items=items, sizes=[2, 1, 1], stati=["ok", "failed"]), fh)
    vecs = [c.vec(l)["p"] for l in c.model("MC_Combine", dict(Export=True), ["RefusedIff", "ExportVec"], env={"SETUP": f}, name="model-payloads")]
    for p in vecs:
        for g in p["config"]:
            g["errs"] = [dict(l=x["l"], err=x) for x in g["errs"]]
    B = 300
    run.batch([dict(op="totalp", ps=vecs[i:i + B]) for i in range(0, len(vecs), B)], "model-payloads:calls")
    ps = [odd(r) for _ in range(c.pick(6000, 200000))]
    names = WORDS + gen.LUA[:3]
    for n in names:  # every name with few arguments, in a block and outside
        for k in range(4):
            for a in ("", "x", "(", "#"):
                for m in (False, True):
                    for blk in (None, [], [D("#"), D("#", comment="c"), D("a", [""])]):
                        x = dict(D(n, [a] * k, block=blk, m=m, comment=None if k % 2 else "c"), z=True)
                        ps.append(c11.payload([dict(file="f", st="ok", errs=[], parsed=[D("a", l=1), x, dict(x, l=1), D("blk", block=[x, D("#", comment="c")])])]))
    run.batch([dict(op="totalp", ps=ps[i:i + B]) for i in range(0, len(ps), B)], "odd-payloads")


def decoding(c, run):
    """JSON of payloads, whole, cut, and with parts exchanged"""
    r = c.rng
    vals = ["null", "[]", "{}", "\"\"", "\"x\"", "0", "-1", "1.5", "1e99", "true", "[null]", "[[]]", "[{}]", "{\"directive\":1}", "99999999999999999999", "\"\\ud800\"", "[1,2]", "{\"a\":{\"b\":[{}]}}"]
    keys = ["status", "errors", "config", "file", "line", "error", "callback", "parsed", "directive", "args", "includes", "block", "comment", "isMapBlockParameter", "Status", "x"]

    def doc(depth):
        x = r.random()
        if depth == 0 or x < 0.25:
            return r.choice(vals)
        if x < 0.4:
            return "[" + ",".join(doc(depth - 1) for _ in range(r.choice([0, 1, 2]))) + "]"
        return "{" + ",".join('"%s":%s' % (r.choice(keys), doc(depth - 1)) for _ in range(r.choice([0, 1, 2, 4]))) + "}"

    def direc(depth):
        o = {"directive": r.choice(WORDS), "line": r.choice([0, 1, -3]), "args": [r.choice(WORDS) for _ in range(r.choice([0, 1, 2]))]}
        for k, v in (("includes", [0]), ("includes", [5, -2]), ("includes", []), ("comment", "c"), ("file", "f")):
            if r.random() < 0.25:
                o[k] = v
        if depth and r.random() < 0.5:
            o["block"] = [direc(depth - 1) for _ in range(r.choice([0, 1, 2]))]
        return o
    xs = list(vals)
    for k in keys:
        for v in vals:
            xs += ['{"%s":%s}' % (k, v), '{"status":"ok","errors":[{"%s":%s}],"config":[]}' % (k, v), '{"config":[{"%s":%s}]}' % (k, v), '{"config":[{"parsed":[{"%s":%s}]}]}' % (k, v), '[{"%s":%s}]' % (k, v),
                   '{"config":[{"errors":[{"%s":%s}]}]}' % (k, v), '{"config":[{"parsed":[{"directive":"a","block":[{"%s":%s}]}]}]}' % (k, v)]
    for _ in range(c.pick(3000, 60000)):
        t = doc(5) if r.random() < 0.4 else json.dumps({"status": "ok", "errors": [{"file": "f", "line": 1, "error": "e"}] * r.choice([0, 1]), "config": [{"file": "f", "status": "ok", "errors": [], "parsed": [direc(3)]} for _ in range(r.choice([1, 2]))]})
        if r.random() < 0.4:
            i = r.randrange(len(t) + 1)
            t = r.choice([t[:i], t[:i] + r.choice(["null", "{", "}", "[", "]", ",", "\"", "0", "\\", " "]) + t[i:], t[:i] + t[i + 1:]])
        xs.append(t)
    r.shuffle(xs)
    B = 300
    run.batch([dict(op="totalj", xs=xs[i:i + B]) for i in range(0, len(xs), B)], "decoding")


def run(c):
    c.model("MC_Chan", dict(MaxTok=c.pick(4, 6), MaxChunk=3, MaxCap=3, Drains=True, Export=False), ["NeverStuck", "NoDeadlock"], ["Ends"], extra="VIEW HistView\n", name="every-schedule-ends")
    c.model("MC_Cycle", dict(N=3, Export=False), ["CycleIff"], ["Terminates"], name="every-include-graph-ends")
    q = Runner(c)
    for f in (exhaustive, structured, repeats, graphs, payloads, decoding):
        if not c.violations:
            f(c, q)
