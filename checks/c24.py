"""C24: registered external lexers.  Every short text under several sets of registrations, replayed; random programs on
random texts and projects, validated."""
import json
from . import gen, core, parsing

PIECES = ["a", "n", "m", "{", "}", ";", " ", "\n", "\"", "\\", "#", "$"]
WIDE = ["n", "nm ", "n{", "\r\n", "{", "};", "'", "\u3000", "x\n", "\\", "#n\n", "n;"]


def reg(names, *pr, eof=False, cap=0):
    return dict(n=list(names), pr=[list(i) for i in pr], eof=eof, cap=cap)


END = ("lit", ";", False)
REGS = [
    [reg("n")],
    [reg("n", ("eat", 1), ("tok", True), END)],
    [reg("n", ("to", ";"), ("tok", True), eof=True), reg("m", ("sp",), ("name",), ("tok", False))],
    [reg("nm", ("err", "x"), ("lit", "#a", False)), reg("n", ("to", "\n"), ("tok", True), END, ("eat", 1), eof=True)],
    [reg("n", ("lit", "}", False)), reg("m", ("lit", "{", False), ("lit", "#c", False)), reg("a", ("sp",), ("lit", "{", False), ("eat", 1))],
    [reg("m", END), reg("am", ("name",), END), reg("a", ("perr", "y"))],
    [reg("n", ("lit", "n", False), ("lit", "#c", False), END), reg("m", ("eat", 2), ("tok", True), ("to", " "), ("tok", False))],
]


def exhaustive(c, pieces, regs, maxlen, name):
    f = c._tmp("setup.json")
    with open(f, "w") as fh:
        json.dump(dict(pieces=pieces, regs=regs), fh)
    vec = c.model("MC_Ext", dict(MaxLen=maxlen, Export=True), ["Unasked", "Idle", "SamePrefix", "Lines", "ReadsText", "ExportVec"], env={"SETUP": f}, name=name)
    want = [c.vec(l) for l in vec]
    groups = {}
    for w in want:
        groups.setdefault(w["g"], []).append(w)
    batches = [(g, ws[i:i + 2000]) for g, ws in sorted(groups.items()) for i in range(0, len(ws), 2000)]
    obs = c.run_cases([dict(op="lexxn", xs=[w["x"] for w in ws], regs=regs[g - 1]) for g, ws in batches], limit=60)
    suspects, n = [], 0
    for (g, ws), o in zip(batches, obs):
        got = o["toksn"] if o.get("k") == "done" else [None] * len(ws)
        for w, ts in zip(ws, got):
            n += 1
            if ts != w["t"]:
                suspects.append(case(w["x"], regs[g - 1]))
    c.traces += n
    c.stage(name + ":replay", replayed=n, mismatches=len(suspects))
    suspects.sort(key=lambda s: len(s["x"]))
    if suspects:
        c.conform(suspects[:200], name=name + ":suspects", sample=0)
    w = want[len(want) // 3]
    c.sample({"text": w["x"], "registrations": regs[w["g"] - 1], "tokens_of_model_and_code": w["t"]})


def case(x, regs, fail="", cap=2048, chunk=0):
    return dict(op="lexx", x=x, regs=regs, fail=fail, cap=cap, chunk=chunk)


def program(r):
    pr = []
    for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6])):
        k = r.random()
        if k < 0.3:
            pr.append(["eat", r.choice([0, 1, 1, 2, 3, 7])])
        elif k < 0.5:
            pr.append(["to", r.choice([";", "}", "\n", " ", "x", "\"", "{", "\\", "\r"])])
        elif k < 0.58:
            pr.append(["sp"])
        elif k < 0.75:
            pr.append(["tok", r.random() < 0.8])
        elif k < 0.8:
            pr.append(["name"])
        elif k < 0.85:
            pr.append([r.choice(["err", "perr"]), r.choice(["bad", "no good"])])
        else:
            pr.append(["lit", r.choice(["", "x", "a b", "#c", "#", "{", "}", "on"]), True] if r.random() < 0.6 else ["lit", r.choice(["x", "#c", "#", "$a", ";", "on", "a0", "{", "}"]), False])
    if r.random() < 0.03:  # many tokens
        k = r.choice([17, 33, 70, 130])
        pr = [list(r.choice([("lit", "x", True), ("lit", "", True), ("lit", "y", False), ("eat", 1), ("lit", "z w", True)])) for _ in range(k)]
    if r.random() < 0.7:
        pr.append(list(END))
    return pr


def registrations(r, names):
    return [dict(n=r.sample(names, r.choice([1, 1, 2, 3])), pr=program(r), eof=r.random() < 0.5, cap=r.choice([0, 0, 1, 5])) for _ in range(r.choice([1, 1, 2, 3, 4]))]


def tame(regs):
    """what is read may be emitted unquoted, but a parser wants braces in pairs"""
    for g in regs:
        for i in g["pr"]:
            if i[0] == "tok" or (i[0] == "lit" and i[1] in "{}"):
                i[-1] = True
    return regs


NAMES = ["a0", "a1", "any", "one", "blk", "if", "map", "http", "include", "unk", "x", "location", "a b", ";", "}", "#", "fl"]


def texts(c, n):
    r = c.rng
    g = gen.Gen(r, names=["a1", "any", "unk", "x", "blk"])
    out = []
    for i in range(n):
        t = g.text(depth=r.choice([0, 1, 2, 3]))
        if i % 3 == 0:
            t = g.mutate(t)
        elif i % 3 == 1:
            t = g.soup(r.choice([5, 9, 20, 50]), gen.Gen.SPECIAL + ["a1", "any ", "x", "unk;", "one{", "\"a b\""])
        out.append(t)
    return out


def projects(c, n):
    out = []
    for _ in range(n):
        k = parsing.project(c.rng)
        k["regs"] = tame(registrations(c.rng, NAMES))
        out.append(k)
    return out


def parses(c, n):
    out = []
    for x in texts(c, n):
        k = gen.parse_case(x, comments=c.rng.random() < 0.7, strict=c.rng.random() < 0.2, stop=c.rng.random() < 0.2, ignore=c.rng.choice([[], ["a1"], ["any", "x"]]))
        k["regs"] = tame(registrations(c.rng, NAMES))
        out.append(k)
    return out


def run(c):
    exhaustive(c, PIECES, REGS if c.thorough else c.rng.sample(REGS, 4), c.pick(4, 5), "all-texts")
    exhaustive(c, WIDE, c.rng.sample(REGS, 3) if not c.thorough else REGS, c.pick(4, 5), "all-texts-wide")
    r = c.rng
    c.conform([case(x, registrations(r, NAMES), fail=r.choice(["", "", "", "boom"]), cap=r.choice([0, 1, 3, 2048]), chunk=r.choice([0, 0, 1, 3, -2])) for x in texts(c, c.pick(1500, 30000))], name="programs")
    c.conform(parses(c, c.pick(400, 8000)), name="parses", sample=1)
    c.conform(projects(c, c.pick(100, 3000)), name="projects", sample=0)
