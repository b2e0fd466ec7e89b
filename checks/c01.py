"""C01: lexing. Every short text of the character model, replayed; long structured texts, validated."""
import json, os
from . import gen, core

BASE = ["a", "$", "{", "}", ";", " ", "\n", '"', "'", "\\", "#", "\r"]
WIDE = ["a", "${", "{", "}", ";", "\t", "\r\n", '"', "\\", "#", "\u3000", "\u00e9"]


def vectors(c, alphabet, maxlen, lua, name):
    """the model's tokens of every text of up to maxlen pieces"""
    af = c._tmp("alphabet.json")
    with open(af, "w") as f:
        json.dump(alphabet, f)
    vec = c.model("MC_Lex", dict(MaxLen=maxlen, UseLua=lua, Export=True),
                  ["TypeOK", "LinesMonotone", "Balance", "DepthIsBalance", "ErrorLast", "NoEmptyDirective", "WordShape",
                   "Conservation", "EndAdds", "FailKeeps", "QuoteFaithful", "PlainUntouched", "LuaVerbatim", "ExportVec"],
                  env={"ALPHABET": af}, name=name)
    return [c.vec(l) for l in vec]


def exhaustive(c, alphabet, maxlen, lua, name, compare):
    want = vectors(c, alphabet, maxlen, lua, name)
    B = 2000
    cases = [dict(op="lexn", xs=[w["x"] for w in want[i:i + B]], lua=lua) for i in range(0, len(want), B)]
    obs = c.run_cases(cases, limit=60)
    suspects, n = [], 0
    for b, o in enumerate(obs):
        if o.get("k") != "done":
            suspects += [dict(op="lex", x=w["x"], lua=lua, fail="", cap=2048, chunk=0) for w in want[b * B:(b + 1) * B]]
            continue
        for w, got in zip(want[b * B:(b + 1) * B], o["toksn"]):
            n += 1
            if not compare(w["t"], got):
                suspects.append(dict(op="lex", x=w["x"], lua=lua, fail="", cap=2048, chunk=0))
    c.traces += n
    c.stage(name + ":replay", replayed=n, mismatches=len(suspects))
    if suspects:
        suspects.sort(key=lambda s: len(s["x"]))
        c.conform(suspects[:200], name=name + ":suspects", sample=0)
    if want:
        w = want[len(want) // 2]
        c.sample({"text": w["x"], "tokens_of_model_and_code": w["t"]})


def noline(ts):
    return [(t["v"], t["q"], t["e"] != "") for t in ts]


def lexcase(x, lua=False, **kw):
    d = dict(op="lex", x=x, lua=lua, fail="", cap=2048, chunk=0)
    d.update(kw)
    return d


def texts(c, lua, n, soup):
    g = gen.Gen(c.rng, lua=lua)
    out = list(gen.special_texts(lua))
    for i in range(n):
        t = g.text(depth=c.rng.choice([1, 2, 3, 4]))
        out.append(t if i % 2 == 0 else g.mutate(t))
    for i in range(soup):
        out.append(g.soup(c.rng.choice([5, 8, 12, 20, 40, 80]), gen.Gen.SPECIAL + ["a", "b", "${", "c "]))
    return out


def run(c):
    cmp_ = lambda a, b: noline(a) == noline(b)
    exhaustive(c, BASE, c.pick(5, 6), False, "all-texts", cmp_)
    exhaustive(c, WIDE, c.pick(4, 5), False, "all-texts-wide", cmp_)
    xs = texts(c, False, c.pick(600, 12000), c.pick(600, 12000))
    c.conform([lexcase(x) for x in xs], name="structured")
    c.conform([lexcase(x) for x in gen.long_texts(c.rng, c.pick(5, None))], name="long", sample=0)
    c.conform([lexcase(x, fail="boom") for x in xs[:c.pick(150, 3000)]], name="read-errors", sample=0)
