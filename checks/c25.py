"""C25: what errors tell.  The errors of every short text, replayed; those of broken projects, of lexing alone, and
errors made by hand, validated."""
import json
from . import gen, core, c01, c24, parsing

PREM = ("unexpected end of file, expecting \"}\"", "premature end of file")


def want(v, stop):
    """the views of the errors the model's outcome has (of one file, called m.conf)"""
    def view(at, e, file, line):
        return {"at": at, "err": e, "json": e["t"], "line": line, "file": file, "prem": e["w"] in PREM, "is": [], "as": True, "again": True}
    es = v["errs"]
    if stop and es:
        return [view("ret", es[0], "", 0)]
    return [view("payload", e, "m.conf", e["l"]) for e in es] + [view("config", e, "m.conf", e["l"]) for e in es] + [view("callback", e, "", 0) for e in es]


def exhaustive(c, kind, n):
    cf = parsing.Confs(c, kind, n, out=("par", "stp"), invariants=["ErrorLines", "FailFast", "ExportVec"])
    for variant in ("par", "stp"):
        opt = dict(cf.case("", variant)["opt"], cb=True)
        outs = cf.run(variant, op="errsn", extra=dict(opt=opt))
        bad = []
        for v, o in zip(cf.vecs, outs):
            if o is not None:
                for e in o:  # which errors of the file system these are is compared below
                    e["is"] = [] if e["as"] else e["is"]
            if o != want(v["o"][variant], variant == "stp"):
                k = cf.case(v["x"], variant, op="errs")
                k["opt"] = dict(k["opt"], cb=True)
                bad.append(k)
        c.traces += len(outs)
        c.stage("all-confs-%s:errors-%s" % (kind, variant), replayed=len(outs), mismatches=len(bad))
        if bad:
            bad.sort(key=lambda k: len(k["files"][0]["x"]))
            c.conform(bad[:100], name="suspects", sample=0)


def broken(c, n):
    out = []
    for _ in range(n):
        r = c.rng
        k = parsing.project(r, lua=r.random() < 0.2, broken=r.choice([0.3, 0.8]), missing=0.2, options=dict(stop=r.random() < 0.4, cb=r.random() < 0.6, combine=r.random() < 0.2))
        k["op"] = "errs"
        if r.random() < 0.06:
            k["files"][0].update(k="open", e="open of the main file refused")
        out.append(k)
    return out


def texts(c, n):
    out = []
    for lua in (False, True):
        for i, x in enumerate(c01.texts(c, lua, n, n // 4)):
            r = c.rng
            if r.random() < 0.5:
                x = gen.Gen(r, lua=lua).mutate(x)
            k = gen.parse_case(x, lua=lua, op="errs", comments=r.random() < 0.7, strict=r.random() < 0.5, stop=r.random() < 0.3, cb=r.random() < 0.7)
            if r.random() < 0.15:
                k["files"][0].update(k="read", e="read failed")
            out.append(k)
    return out


def run(c):
    for kind, n in (("tokens", c.pick(4, 6)), ("stmts", c.pick(4, 6)), ("nginx", c.pick(3, 5)), ("lua", c.pick(4, 5)), ("includes", c.pick(4, 5)), ("maps", c.pick(4, 5))):
        exhaustive(c, kind, n)
    c.conform(texts(c, c.pick(300, 8000)), name="texts")
    c.conform([dict(parsing.anycase(c.rng), op="errs") for _ in range(c.pick(400, 8000))], name="any-options", sample=0)
    c.conform(broken(c, c.pick(300, 8000)), name="projects", sample=1)
    r = c.rng
    ls = []
    for lua in (False, True):
        for x in c01.texts(c, lua, c.pick(200, 5000), c.pick(100, 3000)):
            ls.append(dict(op="lexerrs", x=x, lua=lua, regs=[], fail=r.choice(["", "", "boom", "read lexer: gone"]), cap=r.choice([0, 2048]), chunk=r.choice([0, 1, -2])))
    for x in c24.texts(c, c.pick(200, 5000)):
        ls.append(dict(op="lexerrs", x=x, lua=False, regs=c24.tame(c24.registrations(r, c24.NAMES)), fail=r.choice(["", "boom"]), cap=r.choice([0, 2048]), chunk=0))
    c.conform(ls, name="tokens", sample=0)
    made = [dict(w=w, f=f, s=s, b=b, l=l, hf=hf, hl=hl) for w in ("", "x", "unexpected \"}\"", "a in b:3", "<&>\u2028\u00e9\n") for f in ("", "f.conf", "a b:1") for hf in (False, True)
            for l in (0, 1, -3, 123456) for hl in (False, True) for s, b in (("", ""), ("a b", "http"))]
    c.conform([dict(op="errfmt", es=made)], name="made", sample=0)
    c.conform([dict(parsing.many(r, cb=r.random() < 0.5, combine=r.random() < 0.2, stop=r.random() < 0.15), op="errs") for _ in range(c.pick(40, 600))], name="many-errors", sample=0)
