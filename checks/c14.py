"""C14: layout of built texts and the files of a payload."""
import json
from . import gen, c11, parsing
from .c11 import d

ITEMS = [d("a0"), d("any", ["p q", "x"]), d("#", comment=" c"), d("blk", ["y"], block=[]), d("if", ["$a", "=", "b c"], block=[]), d("if", [""], block=[]),
         d("content_by_lua_block", ["x = {1}"]), d("e1", ["u", "v w"]), d("if", ["1"], m=True), d("#x;", ["#", ""])]
SETS = {"comments": [0, 2, 3, 7], "statements": [0, 1, 2, 3, 4], "odd": [5, 6, 7, 8, 9, 3, 2]}


def lay(indent=0, tabs=False, header=False, lua=False, ext=()):
    return dict(indent=indent, tabs=tabs, header=header, lua=lua, ext=list(ext))


LAYS = [lay(), lay(tabs=True), lay(indent=2, lua=True), lay(indent=1, header=True), lay(indent=7, ext=["e1"]), lay(indent=3, tabs=True, lua=True, ext=["e1"], header=True), lay(indent=40)]


def exhaustive(c, kind, n):
    f = c._tmp("setup.json")
    with open(f, "w") as fh:
        json.dump(dict(items=[ITEMS[i] for i in SETS[kind]], layouts=LAYS), fh)
    vecs = [c.vec(l) for l in c.model("MC_Build", dict(MaxOps=n, Export=True), ["SameText", "Relexes", "SameUpToMargin", "ExportVec"], env={"SETUP": f}, name="all-trees-" + kind)]
    B = 400
    obs = c.run_cases([dict(op="buildn", trees=[v["t"] for v in vecs[i:i + B]], builds=LAYS) for i in range(0, len(vecs), B)])
    bad = []
    for b, o in enumerate(obs):
        for k, v in enumerate(vecs[b * B:(b + 1) * B]):
            for j, x in enumerate(v["x"]):
                if o.get("k") != "done" or o["outs"][k][j] != x:
                    bad.append(dict(op="build", parsed=v["t"], build=LAYS[j]))
    c.traces += len(vecs) * len(LAYS)
    c.stage("all-trees-%s:replay" % kind, trees=len(vecs), layouts=len(LAYS), mismatches=len(bad))
    if vecs:
        v = vecs[len(vecs) // 2]
        c.sample({"tree": v["t"], "layout": LAYS[2], "text": v["x"][2]})
    if bad:
        bad.sort(key=lambda k: len(json.dumps(k)))
        c.conform(bad[:150], name="suspects", sample=0)


class Trees:
    def __init__(self, rng, lua=False):
        self.r, self.lua, self.ln = rng, lua, 0
        self.plain = ["a", "listen", "x1", "/p/q.html", "~", "=", "^~", "8080", "$host", "a$b", "*.js", "\u00e9", "1", "@n", "a#b"]
        self.quoted = ["", "a b", "x;y", "{", "}", "a{2}", "#c", "'q", "it's", 'say "x"', "a\nb", "\t", "tab\tin", "\u3000", "c\rr", "\r\n", "\\d+\\.x y", "${a} b", ";"]

    def word(self):
        return self.r.choice(self.plain) if self.r.random() < 0.75 else self.r.choice(self.quoted)

    def line(self):
        self.ln += self.r.choice([0, 1, 1, 1, 2])
        return self.ln

    def tree(self, depth, width=4):
        r, out = self.r, []
        for _ in range(r.randint(0, width)):
            x = r.random()
            l = self.line()
            if x < 0.25:
                out.append(d("#", comment=r.choice([" note", "", "x", " a ; b {", " }", " é"]), l=l))
            elif x < 0.35 and self.lua:
                n = r.choice(gen.LUA)
                out.append(d(n, (["$v"] if n == "set_by_lua_block" else []) + [r.choice(["", " x = 1 ", "\n  ngx.say('}')\n", "{}"])], l=l))
            elif x < 0.42:
                out.append(d("ext" + r.choice("1234"), [self.word() for _ in range(r.randint(0, 3))], block=[d("a")] if r.random() < 0.2 else None, l=l))
            elif x < 0.68 and depth > 0:
                name = r.choice(["http", "server", "blk", "if", "if", "location", "map", self.word()])
                out.append(d(name, [self.word() for _ in range(r.randint(0, 3))], block=self.tree(depth - 1, width), l=l))
                self.line()
            else:
                out.append(d(r.choice(["a", "b", "if", "include", "#", self.word()]), [self.word() for _ in range(r.randint(0, 4))], l=l, m=r.random() < 0.1))
        return out


def layout(rng, lua=False):
    return lay(rng.choice([0, 0, 1, 2, 3, 4, 5, 8, 16, 33, 99, 100, 101]), rng.random() < 0.3, rng.random() < 0.3, lua, rng.choice([[], [], ["ext1"], ["ext1", "ext2"], ["ext1", "ext2", "ext3", "ext4"]]))


def deep(rng, n, width=0):
    t = [d("a", ["x"], l=n + 1)]
    for k in range(n):
        t = [d("blk", ["n%d" % k], block=t, l=n - k)] + ([d("#", comment="c", l=n - k)] if rng.random() < 0.3 else [])
    return t


def long(rng):
    """many words, long words, many statements"""
    t = Trees(rng)
    w = lambda n: [t.word() for _ in range(n)]
    k = rng.choice([17, 33, 65, 129, 257])
    big = rng.choice(["x" * 5000, "a b" * 1500, "\"'" * 700, "\u00e9{" * 900, "\\" * 3000])
    out = [d("a", w(k), l=1), d("b", [big] + w(2), l=2), d("blk", w(k), l=3, block=[d("a%d" % i, w(1), l=3 + i) for i in range(k)]), d("#", comment=" c" * k, l=rng.choice([3 + k, 900]))]
    out += [d("#", comment=" %d" % i, l=rng.choice([1000, 1000 + i])) for i in range(k)]
    out += [d("if", w(k), l=2000, block=[d("#", comment="x", l=2000)] * k)]
    rng.shuffle(out)
    return dict(op="build", parsed=out[:rng.randint(1, len(out))], build=layout(rng))


def payload(rng, lua, names):
    cfgs = []
    for n in names:
        t = Trees(rng, lua).tree(rng.choice([0, 1, 2]), 3)
        cfgs.append(dict(file=n, st=rng.choice(["ok", "ok", "failed"]), errs=[], parsed=t))
    return c11.payload(cfgs)


FILES = ["a.conf", "sub/b.conf", "x/y/z.conf", "@/abs/c.conf", "../up.conf", "./d.conf", "@/out/e.conf", "sub/../f.conf", "g", "out/j.conf", "o3/out/k", "@/abs//h.conf", "sub/b.conf.d/i"]
DIRS = ["", "@/out", "out", "@/out/deep/er", "./out/../o2", "@/s/", "@/new/", "o3/", "o3", "."]


def files_case(rng, traps=()):
    lua = rng.random() < 0.2
    names = rng.sample(FILES, rng.choice([0, 1, 2, 3, 4, 5]))
    if rng.random() < 0.03:
        names = ["%sf%02d.conf" % (rng.choice(["", "sub/", "s%d/" % i]), i) for i in range(rng.choice([20, 40, 70]))]
    if names and rng.random() < 0.15:
        names.append(names[0])
    p = payload(rng, lua, names)
    pre = [dict(n=x, x="old text that is longer than what is written\n" * 40) for x in rng.sample(["@/out/a.conf", "@/out/sub/b.conf", "@/cwd/a.conf", "@/abs/c.conf", "@/keep/me.conf", "@/out/other.conf", "@/cwd/out/a.conf"], rng.choice([0, 1, 2, 4]))]
    # built before into the same place: the same files, often of the same length
    earlier = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        q = json.loads(json.dumps(p))
        for g in q["config"]:
            for x in g["parsed"]:
                swap(rng, x)
            if rng.random() < 0.1:
                g["parsed"] = Trees(rng, lua).tree(1, 3)
        earlier.append(q)
    return dict(op="files", p=p, build=layout(rng, lua), dir=rng.choice(DIRS), pre=pre, trap=list(traps), earlier=earlier)


def swap(rng, x):
    """other words of the same length"""
    t = str.maketrans("abxlistenq8", "baylsitenp9")
    x["d"], x["c"], x["a"] = x["d"] if x["d"].startswith("ext") or "_by_lua_" in x["d"] else x["d"].translate(t), x["c"].translate(t), [y.translate(t) for y in x["a"]]
    for y in x["b"]:
        swap(rng, y)


def into_case(rng, fail=0):
    lua = rng.random() < 0.2
    p = payload(rng, lua, [rng.choice(["a", "b/c", "/d", "", "a"]) for _ in range(rng.choice([0, 1, 2, 3]))])
    return dict(op="into", p=p, build=layout(rng, lua), fail=fail)


def run(c):
    exhaustive(c, "comments", c.pick(4, 5))
    exhaustive(c, "statements", c.pick(3, 4))
    exhaustive(c, "odd", c.pick(3, 4))
    r = c.rng
    cs = []
    for _ in range(c.pick(600, 12000)):
        lua = r.random() < 0.3
        cs.append(dict(op="build", parsed=Trees(r, lua).tree(r.choice([0, 1, 2, 3, 4])), build=layout(r, lua)))
    for n in (24, 25, 26, 49, 50, 51, 99, 100, 101, 120) if not c.thorough else range(1, 140):
        for b in (lay(), lay(tabs=True), lay(indent=1), lay(indent=2), lay(indent=r.choice([3, 5, 7, 100]))):
            cs.append(dict(op="build", parsed=deep(r, n), build=b))
    cs += [long(r) for _ in range(c.pick(40, 500))]
    c.conform(cs, name="layouts")
    c.conform([files_case(r) for _ in range(c.pick(400, 3000))], name="files")
    c.conform([into_case(r) for _ in range(c.pick(150, 3000))], name="creators")
