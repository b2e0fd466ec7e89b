"""C23: equality of directives.  All pairs of the model's small directives; families of trees that differ in one place."""
import copy
from . import gen, c14
from .c11 import d

NIL = d("<nil>", l=0)


def places(x, path=()):
    yield path
    for i, k in enumerate(x["b"]):
        yield from places(k, path + (i,))


def at(x, path):
    for i in path:
        x = x["b"][i]
    return x


def change(rng, x):
    """one place changed (or only its nil-ness)"""
    x = copy.deepcopy(x)
    y = at(x, rng.choice(list(places(x))))
    k = rng.randrange(21)
    if y["d"] == "<nil>":
        return x
    if k == 0:
        y["d"] += rng.choice(["x", " ", "\x00", "\u00e9"])
    elif k == 1:
        y["d"] = y["d"].upper() if rng.random() < 0.5 else y["d"][:-1]
    elif k == 2:
        n = y["l"] + rng.choice([1, -1, 256, 65536, 1 << 30])
        y["l"] = n if abs(n) < 1 << 31 else y["l"] - 1  # TLC's integers have 32 bits
    elif k == 3 and y["a"]:
        i = rng.randrange(len(y["a"]))
        y["a"][i] += rng.choice(["x", "\u0301"])
    elif k == 4:
        y["a"] = y["a"] + [rng.choice(["", "x"])]
    elif k == 5 and y["a"]:
        y["a"] = y["a"][1:] if rng.random() < 0.5 else y["a"][:-1]
    elif k == 6 and len(y["a"]) > 1:
        i = rng.randrange(len(y["a"]) - 1)
        y["a"][i], y["a"][i + 1] = y["a"][i + 1], y["a"][i]
    elif k == 7:
        y["f"] = "" if y["f"] and rng.random() < 0.5 else y["f"] + "f"
    elif k == 8:
        y["i"], y["hi"] = y["i"] + [rng.choice([0, 1])], True
    elif k == 9 and y["i"]:
        y["i"] = y["i"][::-1] if rng.random() < 0.5 else y["i"][1:]
    elif k == 10:
        y["c"], y["hc"] = (y["c"] + "c", True) if rng.random() < 0.6 else ("", not y["hc"])
    elif k == 11:
        y["m"] = not y["m"]
    elif k == 12:
        y["b"], y["hb"] = y["b"] + [rng.choice([d("z"), copy.deepcopy(y["b"][-1]) if y["b"] else d("z"), NIL])], True
    elif k == 13 and y["b"]:
        y["b"] = y["b"][1:] if rng.random() < 0.5 else y["b"][:-1]
    elif k == 14 and len(y["b"]) > 1:
        i = rng.randrange(len(y["b"]) - 1)
        y["b"][i], y["b"][i + 1] = y["b"][i + 1], y["b"][i]
    elif k == 15:
        y["z"] = not y.get("z")  # nil or empty lists
        if not y["b"]:
            y["hb"] = rng.random() < 0.5
        if not y["i"]:
            y["hi"] = rng.random() < 0.5
    elif k == 16 and y["a"]:
        y["a"] = [" ".join(y["a"])]
    elif k > 16:  # nearly the same text
        near = lambda s: rng.choice([s.swapcase(), s + " ", " " + s, s + "\n", "\t" + s, s.strip(), s + "\x00", s + "/", "./" + s, "'" + s + "'", s.replace("e", "\u00e9"), s[::-1], s + s])
        if k == 17:
            y["c"], y["hc"] = near(y["c"]), True
        elif k == 18:
            y["f"] = near(y["f"])
        elif k == 19:
            y["d"] = near(y["d"])
        elif y["a"]:
            i = rng.randrange(len(y["a"]))
            y["a"][i] = near(y["a"][i])
    return x


def family(rng, n):
    t = c14.Trees(rng, rng.random() < 0.3).tree(rng.choice([1, 2, 3]), 4)
    x = rng.choice(t) if t and rng.random() < 0.3 else d("top", ["p", "q"], block=t, l=rng.choice([0, 1, 7]), f=rng.choice(["", "x.conf"]), inc=rng.choice([None, None, [0, 3]]))
    out = [x, copy.deepcopy(x), NIL]
    while len(out) < n:
        out.append(change(rng, rng.choice(out[:2] + out[3:])))
    return out


def big(rng):
    """deep, wide, with many words"""
    n = rng.choice([17, 40, 90])
    k = rng.choice(["deep", "wide", "words", "indices"])
    if k == "deep":
        x = d("a", ["x"], l=n)
        for i in range(n):
            x = d("blk", ["n%d" % i], block=[x] if rng.random() < 0.5 else [d("z"), x], l=n - i)
    elif k == "wide":
        x = d("blk", block=[d("a%d" % i, ["x"], l=i) for i in range(n)])
    elif k == "words":
        x = d("blk", ["w%d" % (i % 7) for i in range(n)], block=[])
    else:
        x = d("include", ["*"], inc=list(range(n)))
    out = [x, copy.deepcopy(x)]
    # the last of everything, and somewhere
    for f in (lambda y: y["a"][-1:] and y["a"].__setitem__(-1, "other"), lambda y: y["i"][-1:] and y["i"].__setitem__(-1, 999), lambda y: y.update(l=y["l"] + 1), lambda y: y.update(m=True)):
        for where in (-1, rng.randrange(n)):
            z = copy.deepcopy(x)
            ps = list(places(z))
            f(at(z, ps[where % len(ps)]))
            out.append(z)
    out += [change(rng, x) for _ in range(4)]
    return {"op": "equal", "ds": out[:4], "with": out}


def run(c):
    r = c.rng
    inv = ["Reflexive", "Symmetric", "Transitive", "Separates", "NilAlone", "ExportVec"]
    ds = [c.vec(l)["x"] for l in c.model("MC_Equal", dict(Changes=c.pick(2, 3), Export=True), inv, name="all-directives")]
    cs = []
    nils = [dict(x, z=True) for x in ds if not x["b"]]
    for i in range(0, len(ds), 30):
        for other in (ds, nils):
            cs.append({"op": "equal", "ds": ds[i:i + 30], "with": other})
    c.conform(cs, name="all-pairs", sample=0)
    c.notes["pairs"] = len(ds) * (len(ds) + len(nils))
    fs = []
    for _ in range(c.pick(400, 8000)):
        f = family(r, r.choice([8, 12, 16]))
        fs.append({"op": "equal", "ds": f, "with": copy.deepcopy(f)})
    c.conform(fs, name="families", sample=1)
    c.conform([big(r) for _ in range(c.pick(60, 600))], name="large", sample=0)
