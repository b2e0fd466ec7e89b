"""Cases and pipelines shared by the parser's checks."""
import json, posixpath
from . import gen, core


def clean(p):
    q = posixpath.normpath(p)
    return "/" + q.lstrip("/") if p.startswith("/") else q


def join(a, b):
    return clean(a + "/" + b) if a else clean(b)


def pdir(p):
    return clean(p[:p.rfind("/") + 1]) if "/" in p else "."


def pattern(main, arg):
    return arg if arg.startswith("/") else join(pdir(main), arg)


def project(rng, lua=False, nfiles=None, broken=0.3, options=None, missing=0.1, deep=2, src=None):
    """A main file and included files, with includes anywhere."""
    main = rng.choice(["nginx.conf", "/etc/nginx/nginx.conf", "conf/nginx.conf", "./nginx.conf", "/n.conf", "a/../b/nginx.conf"])
    d = pdir(main)
    n = nfiles if nfiles is not None else rng.choice([1, 2, 2, 3, 4, 5, 7])
    sub = ["", "conf.d/", "sites/", "x/y/"]
    names = []
    while len(names) < n:
        nm = join(d, rng.choice(sub) + rng.choice("abcdefgh") + str(rng.randint(0, 9)) + rng.choice([".conf", ".inc", ".conf"]))
        if rng.random() < 0.15:
            nm = "/opt/" + rng.choice("abc") + ".conf"
        if nm not in names and nm != main:
            names.append(nm)
    globs = {}

    def target():
        x = rng.random()
        if x < 0.12 and missing:
            return rng.choice(["missing.conf", "/no/such.conf", "conf.d/none.conf"])
        if x < 0.4:
            arg = rng.choice(["*.conf", "conf.d/*.conf", "sites/*", "/opt/*.conf", "[ab]?.conf", "conf.d/*", "x/y/a?.*"]) if rng.random() < 0.8 else "none/*.conf"
            key = pattern(main, arg)
            if key not in globs:
                if "none" in arg:
                    globs[key] = dict(p=key, e="", n=[])
                else:
                    ns = rng.sample(names, rng.randint(0, min(4, len(names)))) if names else []
                    if rng.random() < 0.08 and missing:
                        ns.append("/gone.conf")
                    globs[key] = dict(p=key, e="glob trouble" if rng.random() < 0.05 and broken else "", n=ns)
            return arg
        if not names:
            return "missing.conf"
        nm = rng.choice(names)
        if rng.random() < 0.08:
            return main  # a cycle
        if nm.startswith("/") and rng.random() < 0.5 or d != "." and not nm.startswith(d + "/") and nm.startswith("/"):
            return nm
        if d == ".":
            return rng.choice(["", "", "./", "zz/../"]) + nm
        if nm.startswith(d + "/"):
            return rng.choice(["", "", "./"]) + nm[len(d) + 1:]
        return nm

    def text(level):
        g = gen.Gen(rng, lua=lua, noise=0.12, weird=0.08, maxblock=3)
        s = g.text(depth=rng.choice([1, 1, 2]), n=rng.choice([0, 1, 1, 2, 3]))
        if rng.random() < broken:
            s = g.mutate(s, 1)
        k = rng.choice([0, 1, 1, 2]) if level else rng.choice([1, 1, 2, 3])
        for _ in range(k):
            t = target()
            inc = "include" + rng.choice([" ", " ", "\n", "\t"]) + (t if rng.random() < 0.85 else '"%s"' % t) + ";"
            if rng.random() < 0.04:
                inc = rng.choice(["include;", "include a b;", "include {a0;}", "include ;"])
            x = rng.random()
            if x < 0.2:
                inc = "http { " + inc + " server { listen 1; } }"
            elif x < 0.35:
                inc = "blk {\n" + inc + "\na0; }"
            elif x < 0.42:
                inc = "http { server { location / { " + inc + " } } }"
            elif x < 0.47:
                inc = "map $a $b { " + inc + " }"
            elif x < 0.55:
                inc = inc + " " + inc
            pos = rng.choice([0, len(s)])
            s = s[:pos] + "\n" + inc + "\n" + s[pos:]
        return gen.nested(rng, s, 17) if rng.random() < 0.03 else s
    files = [dict(n=main, k="ok", x=text(0), e="")]
    for nm in names:
        x = rng.random()
        if missing and x < 0.06:
            files.append(dict(n=nm, k="open", x="", e="open %s: permission denied" % nm))
        elif missing and x < 0.12:
            files.append(dict(n=nm, k="read", x=text(1), e="read %s: input/output error" % nm))
        else:
            files.append(dict(n=nm, k="ok", x=text(1), e=""))
    o = dict(comments=rng.random() < 0.7, stop=rng.random() < 0.1, cb=rng.random() < 0.4, strict=rng.random() < 0.15,
             combine=rng.random() < 0.15, lua=lua, skipctx=rng.random() < 0.15, skipargs=rng.random() < 0.15)
    o.update(options or {})
    c = gen.parse_case("", name=main, src=src, **o)
    c["files"], c["globs"] = files, list(globs.values())
    return c


def projects(c, n, **kw):
    return [project(c.rng, lua=c.rng.random() < 0.2, **kw) for _ in range(n)]


CONF_PIECES = {
    "tokens": ["blk ", "a0 ", "any ", "x ", "{", ";", "}", "#c\n", "\"q\" "],
    "stmts": ["blk{", "a0;", "a1;", "a1{", "u v;", "}", "#c\n", "any x{", "any #d\ny;"],
    "maps": ["map a b{", "x ", "1;", "volatile;", "if (a){", "blk{", "}", "#c\n", "a0;"],
    "ifs": ["if ", "(", "( ", "a", ") ", "\"\" ", "{", "}", "xp ", ";"],
    "ifq": ["if ", "\"(\" ", "\"(a \" ", "'( \n' ", "\" )\" ", "' b)' ", "\" \" ", "(", ")", "{}", "if{", "b\\ ", "\\)"],
    "ifb": ["if (", "a", "\\", "\\\\", " ", ")", "){}"],
    "nginx": ["http{", "server{", "location x{", "if (a){", "mix;", "mix 1 2;", "mix 1{", "}", "events{"],
    "words": ["any ", "'q", "'", "\"", "a", "\\", "{", "}", ";"],
    "includes": ["include f;", "include ", "none", "blk{", "map a b{", "}", ";", "a0;", "f"],
    "comments": ["any ", "#c\n", "# d \n", "x ", "{", ";", "}", "\n", "'#q' "],
    "lua": ["content_by_lua_block", " {", "}", "set_by_lua_block $a", "x", "'", "\n", "blk{", "a0;"],
}
CONF_IGNORE = {"tokens": ["blk", "any"], "stmts": ["blk", "u"], "maps": ["x", "blk"], "ifs": ["xp"], "nginx": ["server", "if"], "words": ["any"],
               "includes": ["include"], "lua": ["content_by_lua_block"]}
CONF_INV = ["DepthAgrees", "FailFast", "CommentFilter", "IgnoreFilter", "SingleFilter", "Accepted", "ErrorLines", "Complete", "RoundTrip", "ExportVec"]
VARIANTS = {"par": {}, "stp": dict(stop=True), "ncm": dict(comments=False), "ign": dict(ignore=True), "sng": dict(single=True)}


class Confs:
    """All short texts over some pieces, with what the model makes of them."""

    def __init__(self, c, kind, maxlen, out=("par",), built=False, pieces=None, ignore=None, invariants=None):
        self.c, self.kind, self.lua = c, kind, kind == "lua"
        self.ignore = ignore or CONF_IGNORE.get(kind, [])
        src = gen.std_source()
        if kind.startswith("if"):  # conditions are accepted everywhere
            src = [dict(e, m=[gen.ALLCTX + ["block", "expr", "1+"]]) if e["n"] == "if" else e for e in src]
        base = gen.parse_case("", name="m.conf", src=src, lua=self.lua, comments=True)
        base["files"] = [dict(n="m.conf", k="ok", x="", e=""), dict(n="f", k="ok", x="", e="")]
        self.base = base
        f = c._tmp("setup.json")
        with open(f, "w") as fh:
            json.dump(dict(pieces=pieces or CONF_PIECES[kind], base=base, ignore=self.ignore, out=list(out), built=built), fh)
        self.inv = invariants or CONF_INV
        if self.lua and not invariants:  # stated for texts of ordinary syntax
            self.inv = [i for i in CONF_INV if i not in ("DepthAgrees",)]
        vec = c.model("MC_Conf", dict(MaxLen=maxlen, UseLua=self.lua, Export=True), self.inv, env={"SETUP": f}, name="all-confs-" + kind)
        self.vecs = [c.vec(l) for l in vec]
        for v in self.vecs:
            v["o"] = {r["n"]: r["o"] for r in v["o"]}

    def case(self, x, variant="par", op="parse"):
        k = dict(self.base)
        k["op"] = op
        k["files"] = [dict(n="m.conf", k="ok", x=x, e=""), dict(n="f", k="ok", x="", e="")]
        o = dict(VARIANTS[variant])
        if o.get("ignore"):
            o["ignore"] = self.ignore
        k["opt"] = dict(self.base["opt"], **o)
        return k

    def run(self, variant, op="parsen", extra=None, B=2000):
        """The real outcomes of all texts, batched."""
        k = self.case("", variant, op)
        k.update(extra or {})
        cases = []
        for i in range(0, len(self.vecs), B):
            d = dict(k)
            d["xs"] = [v["x"] for v in self.vecs[i:i + B]]
            d["aux"] = k["files"][1:]
            cases.append(d)
        obs = self.c.run_cases(cases, limit=120)
        out = []
        for d, o in zip(cases, obs):
            if o.get("k") == "done":
                out += o["outs"]
            else:
                out += [None] * len(d["xs"])
        return out

    @staticmethod
    def same(want, got, stop):
        """the model's outcome and the real one (of a file that includes nothing unusual)"""
        if got is None:
            return False
        if stop and want["errs"]:
            return [e for e in got["ret"]] == want["errs"][:1]
        if got["ret"]:
            return False
        g = got["p"]["config"][0]
        return g["parsed"] == want["parsed"] and [e["err"] for e in g["errs"]] == want["errs"]

    def replay(self, variant, view=None):
        """texts whose real outcome under a variant is not the model's"""
        outs = self.run(variant)
        bad = []
        for v, o in zip(self.vecs, outs):
            if not self.same(v["o"][variant], o, variant == "stp"):
                bad.append(v["x"])
        self.c.traces += len(outs)
        self.c.stage("all-confs-%s:replay-%s" % (self.kind, variant), replayed=len(outs), mismatches=len(bad))
        if self.vecs and len(self.c.samples) < 3:
            v = self.vecs[len(self.vecs) * 2 // 3]
            self.c.sample({"text": v["x"], "variant": variant, "outcome_of_model_and_code": v["o"][variant]})
        bad.sort(key=len)
        return bad[:150]


def conditions(rng, n):
    """texts with conditions of all kinds"""
    out = []
    for _ in range(n):
        sp = lambda: rng.choice(["", "", " ", "  ", "\n", "\t", "\u00a0", "\u3000", "\v", "\\ ", "\u0085"])
        x = rng.choice(["", "unk{", "http{server{", "http{server{location /{"])
        for _ in range(rng.choice([1, 1, 2, 3])):
            ws = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 4])):
                w = sp() + rng.choice(["", "", "(", "( ", ")", "()", "(("]) + sp() + rng.choice(["", "$a", "=", "!~*", "a b", "(b|c)", "-f", ")", "("]) + sp() + rng.choice(["", "", ")", " )", "))", "("]) + sp()
                q = rng.choice(["", "", '"', "'"])
                ws.append(q + w + q)
            c = rng.choice([" ", " ", "\n", "", "#c\n"]).join(ws)
            if rng.random() < 0.6:
                c = "(" + rng.choice(["", " "]) + c + rng.choice(["", " "]) + ")"
            x += rng.choice(["if ", "if ", "if", "if\n", "'if' ", "IF ", "elif "]) + c + rng.choice(["{}", " { }", "{ x; }", " {\nif (a) { }\n}", ";"])
        out.append(x + "}" * x.startswith("unk") + "}}" * x.startswith("http") + "}" * x.startswith("http{server{location"))
    return out


def pieces_text(rng, n=None):
    """pieces of all kinds, often balanced"""
    kinds = rng.sample(sorted(CONF_PIECES), rng.choice([1, 2, 2, 3]))
    x, depth = "", 0
    for _ in range(n or rng.choice([3, 5, 8, 12])):
        k = rng.choice(kinds)
        p = rng.choice(CONF_PIECES[k])
        if rng.random() < 0.4:
            p = rng.choice(["a0;", "a1 x;", "x y;", "a1;", "blk{", "map a b{", "}", "} ", "http{", "server{", "x;", "if (a){", "fl maybe;", "volatile;", "geo{", "include f;"])
        if p.strip() == "}" and depth == 0 and rng.random() < 0.8:
            continue
        depth += p.count("{") - p.count("}")
        x += p
    if rng.random() < 0.8:
        x += rng.choice(["", "", ";", " "]) + "}" * max(0, depth)
    return x


def anytext(rng, lua=False):
    """a text of any kind"""
    from . import c06
    k = rng.random()
    if k < 0.35:
        return pieces_text(rng)
    if k < 0.5:
        return c06.mapcase(rng)["files"][0]["x"]
    if k < 0.6:
        return conditions(rng, 1)[0]
    g = gen.Gen(rng, lua=lua, noise=rng.choice([0.05, 0.25]), weird=rng.choice([0, 0.15]))
    x = g.text(depth=rng.choice([1, 2, 3]))
    return g.mutate(x) if rng.random() < 0.3 else x


def anycase(rng, **options):
    """any text under any options"""
    lua = rng.random() < 0.2
    r = rng.random
    o = dict(lua=lua, comments=r() < 0.5, strict=r() < 0.15, stop=r() < 0.2, combine=r() < 0.15, single=r() < 0.15, skipctx=r() < 0.3, skipargs=r() < 0.3, cb=r() < 0.3,
             ignore=rng.choice([[], [], [], ["a1"], ["x", "blk"], ["include"], ["map", "if"], ["http"], ["a0", "#"]]))
    o.update(options)
    x = anytext(rng, lua)
    return gen.parse_case(x, name="m.conf", files=[dict(n="m.conf", k="ok", x=x, e=""), dict(n="f", k="ok", x=rng.choice(["", "a0;", "a1;", "blk { a1 x; }", "include f2;", "server { }"]), e=""),
                                                   dict(n="f2", k="ok", x="a0;", e="")],
                          globs=[dict(p="g*", e="", n=["f2", "f"])], **o)


def variants(case, vs, op="multi", **kw):
    """the same files under several options"""
    d = dict(case)
    d["op"] = op
    d["vars"] = [dict(opt=dict(case["opt"], **v), cap=2048, chunk=0) for v in vs]
    d.update(kw)
    return d


def many(rng, **opt):
    """many errors: in one file, or in many"""
    bad = ["nope 1;", "a0 1;", "a1;", "a0 {}", "blk;", "blk {nope;}", "include gone;", "map $a $b {x;}", "http {listen 1 2;}", "if (x {}", "a0 1 2 3 4;", "\n"]
    good = ["a0;", "a1 x;", "blk {a0;}", "# c\n", "any x y;", "\n"]

    def text(n, share):
        return "".join(rng.choice(bad if rng.random() < share else good) + rng.choice(["", "\n", " "]) for _ in range(n))
    share = rng.choice([0.3, 0.6, 1])
    n = rng.choice([1, 1, 20, 70])
    x = text(rng.choice([17, 33, 70, 140, 300]) if n == 1 else 3, share)
    names = ["f%02d" % i for i in range(n - 1)]
    k = gen.parse_case("", name="m", **dict(dict(strict=True), **opt))
    x = ("include all*;" if rng.random() < 0.7 else "".join("include %s;" % f for f in names)) + x if names else x
    k["files"] = [dict(n="m", k="ok", x=x, e="")] + [dict(n=f, k="ok" if rng.random() < 0.9 else "read", x=text(rng.choice([0, 1, 3]), share), e="") for f in names]
    for f in k["files"]:
        if f["k"] == "read":
            f["e"] = "read %s: input/output error" % f["n"]
    k["globs"] = [dict(p="all*", e="", n=names)]
    return k
