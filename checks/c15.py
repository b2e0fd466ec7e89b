"""C15: JSON.  Every combination of fields of a directive and every small payload of the model, replayed; parses, validated."""
import json
from . import gen, c11, parsing
from .c11 import d

STR = ["", "a", "é\"\\/\n<&>\u2028\t"]


def plain(t):
    """a JSON value as the driver tells it, comparable"""
    if t[0] == "a":
        return ["a", [plain(x) for x in t[1]]]
    if t[0] == "o":
        items = t[1].items() if isinstance(t[1], dict) else t[1]
        ks = [k for k, _ in items]
        if len(set(ks)) != len(ks):
            return ["duplicate fields", ks]
        return ["o", {k: plain(v) for k, v in items}]
    return list(t)


def exhaustive(c, name, mode, base, fields):
    f = c._tmp("setup.json")
    with open(f, "w") as fh:
        json.dump(dict(mode=mode, base=base, fields=dict(fields), order=[k for k, _ in fields]), fh)
    vecs = [c.vec(l) for l in c.model("MC_Json", dict(Export=True), ["DecodeInverts", "Again", "ExportVec"], env={"SETUP": f}, name=name)]
    B = 200
    obs = c.run_cases([dict(op="jsonn", ps=[v["p"] for v in vecs[i:i + B]]) for i in range(0, len(vecs), B)])
    bad = []
    for b, o in enumerate(obs):
        for k, v in enumerate(vecs[b * B:(b + 1) * B]):
            g = o["outs"][k] if o.get("k") == "done" else None
            if not (g and g["merr"] == "" and g["uerr"] == "" and g["again"] and g["kept"] and plain(g["j"]) == plain(v["j"]) and g["p"] == v["q"]):
                bad.append(dict(op="json", p=v["p"]))
    c.traces += len(vecs)
    c.stage(name + ":replay", payloads=len(vecs), mismatches=len(bad))
    if vecs:
        v = vecs[len(vecs) * 3 // 4]
        c.sample({"payload": v["p"], "json": v["j"]})
    if bad:
        bad.sort(key=lambda k: len(json.dumps(k)))
        c.conform(bad[:150], name="suspects", sample=0)


def err(w, f="f", l=3, s="", b=""):
    t = w + (" in %s:%d" % (f, l) if f else "")
    return dict(w=w, l=l if f else 0, f=f, s=s, b=b, t=t)


NOERR = dict(w="<nil>", l=0, f="", s="", b="", t="")


def odd(rng):
    c = c11.odd(rng)

    def fix(ds):
        return [dict(x, a=[rng.choice(["", "x", "a b", "\u0001\u007f", "<&>", "\\u0041", "é中", "\u2028\u2029", "'\"", "\r\n\t", "\ufffd", "null"]) for _ in x["a"]],
                     d=rng.choice([x["d"], x["d"], "é", "\"", "", "directive"]) if x["d"] != "#" else x["d"],
                     m=rng.random() < 0.2, b=fix(x["b"])) for x in ds]
    for g in c["p"]["config"]:
        g["parsed"] = fix(g["parsed"])
        g["file"] = rng.choice([g["file"], "", "/é \"x\"", "a<b>&"])
    if rng.random() < 0.3:
        c["p"]["errs"] = [dict(file=rng.choice(["f", "", "é"]), l=e["l"], err=e, cb=rng.choice(["", "cb1:x", "<\">"]))
                          for e in [rng.choice([err("w"), err("x \"y\" <&>", "g", 7, "st", "http"), err("plain", ""), err("\u2028é\n", ""), NOERR]) for _ in range(rng.choice([1, 2, 3]))]]
    c["op"] = "json"
    return c


def run(c):
    base = d("x")
    leaf, com = d("leaf"), d("#", comment=" n")
    exhaustive(c, "all-directives", "dir", base, [
        ("d", [dict(d=x) for x in STR]), ("l", [dict(l=0), dict(l=7)]), ("a", [dict(a=[]), dict(a=[""]), dict(a=["x", STR[2]])]),
        ("f", [dict(f=""), dict(f="g")]), ("i", [dict(hi=False, i=[]), dict(hi=True, i=[]), dict(hi=True, i=[0, 2])]),
        ("b", [dict(hb=False, b=[]), dict(hb=True, b=[]), dict(hb=True, b=[leaf, com])]),
        ("c", [dict(hc=False, c=""), dict(hc=True, c=""), dict(hc=True, c=STR[2])]), ("m", [dict(m=False), dict(m=True)])])
    g0 = dict(file="f", st="ok", errs=[], parsed=[leaf])
    g1 = dict(file=STR[2], st="failed", errs=[dict(l=3, err=err("w")), dict(l=0, err=err("raw", ""))], parsed=[])
    g3 = dict(file="n", st="failed", errs=[dict(l=0, err=NOERR), dict(l=5, err=err("w")), dict(l=2, err=NOERR)], parsed=[leaf])
    g2 = dict(file="", st="", errs=[dict(l=3, err=err(STR[2], "g", 4))], parsed=[com, d("b", block=[])])
    es = [dict(file="f", l=3, err=err("w"), cb=""), dict(file="", l=0, err=err("raw", ""), cb="cb"), dict(file=STR[2], l=4, err=err(STR[2], "g", 4, "s", "b"), cb=STR[2]), dict(file="f", l=1, err=NOERR, cb="x")]
    exhaustive(c, "all-payloads", "payload", dict(st="", errs=[], config=[]), [
        ("st", [dict(st=x) for x in ("ok", "failed", "")]),
        ("errs", [dict(errs=x) for x in ([], [es[0]], [es[1]], [es[2]], [es[0], es[1]], [es[1], es[2], es[0]], [es[3]], [es[0], es[3]])]),
        ("config", [dict(config=x) for x in ([], [g0], [g1], [g2], [g0, g1], [g1, g2, g0], [g0, g0], [g3, g1])])])
    cs = [odd(c.rng) for _ in range(c.pick(400, 8000))]
    c.conform(cs, name="odd-payloads")
    ps = [parsing.project(c.rng, lua=c.rng.random() < 0.2, options=dict(combine=c.rng.random() < 0.3, cb=c.rng.random() < 0.6)) for _ in range(c.pick(300, 6000))]
    obs = c.run_cases(ps)
    c.conform([dict(op="json", p=o["p"]) for o in obs if o.get("k") == "done" and not o["nil"]], name="parses")
